//! executable contracts of proof verification: opening, fee, proof, finalization and payout
use crate::env::*;
use crate::p_commit::*;
use crate::p_state::*;
use crate::svm::*;
use crate::{acct, ck, say, Case, Rng, Tr, R};
use borsh::BorshSerialize;
use elusiv::buffer::RingBuffer;
use elusiv::fields::*;
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::*;
use elusiv::proof::verifier::prepare_public_inputs_instructions;
use elusiv::proof::vkey::{SendQuadraVKey, VerifyingKeyInfo};
use elusiv::state::commitment::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::state::vkey::VKeyAccount;
use elusiv::token::*;
use elusiv::types::*;
use elusiv_types::accounts::*;
use elusiv_types::ElusivOption;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub fn props() -> Vec<(&'static str, Vec<(&'static str, Case)>)> {
    vec![
        ("V01", vec![("stages", v01 as Case), ("payer", v01_payer), ("compute", v01_compute)]),
        ("V02", vec![("inputs", v02 as Case)]),
        ("V03", vec![("record", v03 as Case), ("duplicates", v03_dup)]),
        ("V04", vec![("fee", v04 as Case), ("refused-fee", v04_refused)]),
        ("V05", vec![("send", v05 as Case)]),
        ("V06", vec![("insert", v06 as Case), ("trees", v06_trees)]),
        ("V07", vec![("rejected", v07 as Case)]),
        ("V08", vec![("lamports", v08 as Case)]),
        ("V09", vec![("token", v09 as Case)]),
        ("V10", vec![("followers", v10 as Case), ("attached", v10_attached)]),
        ("V11", vec![("signals", v11 as Case)]),
        ("V13", vec![("schedule", v13 as Case)]),
    ]
}

pub const NCHILD: usize = <NullifierChildAccount as SizedAccount>::SIZE;
pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
pub const IXS: Pubkey = solana_program::pubkey!("Sysvar1nstructions1111111111111111111111111");
fn memo_id() -> Pubkey {
    "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr".parse().unwrap()
}

/// what a sender and the warden agree on
#[derive(Clone)]
pub struct V {
    pub n: NetC,
    pub i: u8,
    pub acc: Pubkey,
    pub ti: [u32; 2],
    pub req: SendPublicInputs,
    pub vk: u32,
    pub skip: bool,
    pub recipient: Pubkey,
    pub ident: Pubkey,
    pub reference: Pubkey,
    pub iv: U256,
    pub enc: U256,
    pub memo: Option<Vec<u8>>,
    pub spent: Vec<Vec<U256>>,
    pub roots: Vec<Vec<U256>>,
    pub ptr: u32,
}
/// the parts of Net that can be cloned
#[derive(Clone)]
pub struct NetC {
    pub w: World,
    pub token: u16,
    pub pool: Pubkey,
    pub collector: Pubkey,
    pub payer: Pubkey,
    pub fee: elusiv::state::fee::ProgramFee,
    pub version: u32,
    pub rate: u32,
    pub prices: (i64, i64),
}
fn as_net(n: &NetC) -> Net {
    Net { w: World::new(elusiv::id()), token: n.token, pool: n.pool, collector: n.collector, sender: n.payer, payer: n.payer, fee: n.fee.clone(), version: n.version, rate: n.rate, prices: n.prices }
}
pub fn o_hash_inputs(v: &V) -> U256 {
    let mut d = vec![];
    d.extend(v.recipient.to_bytes());
    d.extend(v.ident.to_bytes());
    d.extend(v.iv);
    d.extend(v.enc);
    d.extend(if v.reference == IXS { [0; 32] } else { v.reference.to_bytes() });
    d.push(v.req.recipient_is_associated_token_account as u8);
    d.extend(v.req.join_split.metadata);
    d.extend(v.req.join_split.optional_fee.collector.to_bytes());
    d.extend(v.req.join_split.optional_fee.amount.to_le_bytes());
    if let Some(m) = &v.memo {
        d.extend(m)
    }
    let mut h = solana_program::hash::hash(&d).to_bytes();
    h[31] &= 31;
    h
}
/// components of the verification fee in the token: (hashing lamports, hashing, proof, network, subvention)
pub fn o_fee(v: &V) -> (u64, u64, u64, u64, u64) {
    let n = as_net(&v.n);
    let f = &v.n.fee;
    let hash = o_commit(f, v.n.rate as usize) as u64;
    let txs = o_schedule(&o_signals(&v.req)).len() as u64;
    let proof = (txs + f.proof_base_tx_count) * f.lamports_per_tx.0 + f.warden_proof_reward.0;
    let net = (v.req.join_split.amount as u128 * f.proof_network_fee.0 as u128 / 10_000) as u64;
    (hash, into_token(&n, hash), into_token(&n, proof), net, into_token(&n, f.proof_subvention.0))
}
pub fn o_total(v: &V) -> Option<u64> {
    let (_, h, p, n, s) = o_fee(v);
    (h + p + n).checked_sub(s)
}
fn u64b(x: u64) -> U256 {
    let mut b = [0; 32];
    b[..8].copy_from_slice(&x.to_le_bytes());
    b
}
pub fn o_signals(q: &SendPublicInputs) -> Vec<U256> {
    let j = &q.join_split;
    let mut v: Vec<U256> = (0..4).map(|i| j.input_commitments.get(i).map(|c| c.nullifier_hash.skip_mr()).unwrap_or([0; 32])).collect();
    v.extend((0..4).map(|i| j.input_commitments.get(i).and_then(|c| c.root).map(|c| c.skip_mr()).unwrap_or([0; 32])));
    v.push(u64b(j.amount.wrapping_add(j.fee)));
    v.push(j.output_commitment.skip_mr());
    v.push(u64b(j.recent_commitment_index as u64));
    v.push(u64b(j.fee_version as u64));
    v.push(u64b(j.token_id as u64));
    v.push(q.hashed_inputs);
    v
}
/// rounds per transaction: greedy filling of 1330 kCU with 22 per non-zero byte and 30 per
/// non-zero input
pub fn o_schedule(s: &[U256]) -> Vec<u32> {
    let mut out = vec![];
    let (mut rounds, mut cus) = (0, 0);
    for x in s {
        for b in 0..33 {
            let c = if b < 32 { if x[b] == 0 { 0 } else { 22 } } else if *x == [0; 32] { 0 } else { 30 };
            if cus + c > 1330 {
                out.push(rounds);
                rounds = 0;
                cus = 0;
            }
            rounds += 1;
            cus += c;
        }
    }
    if rounds > 0 {
        out.push(rounds)
    }
    out
}

fn nullifier_world(wd: &mut World, r: &mut Rng, tree: u32, root: U256, pre: &[U256]) {
    let k = put::<NullifierAccount>(wd, Some(tree));
    let ck_ = r.key();
    let mut cd = vec![0u8; NCHILD];
    cd[0] = 1;
    let mut d = wd.accs[&k].data.clone();
    {
        let mut child = Child { key: ck_, owner: elusiv::id(), lamports: 1, data: cd };
        {
            let info = child.info();
            let mut kids = vec![None; 16];
            kids[0] = Some(&info);
            let mut a = NullifierAccount::new_with_child_accounts(&mut d, kids).unwrap();
            a.set_child_pubkey(0, ElusivOption::Some(ck_));
            a.set_root(&root);
            for p in pre {
                a.try_insert_nullifier_hash(*p).unwrap();
            }
        }
        wd.put(ck_, rent(NCHILD), child.data, elusiv::id());
    }
    wd.accs.get_mut(&k).unwrap().data = d;
}
fn child_of(wd: &World, tree: u32) -> Option<Pubkey> {
    let mut d = wd.data(&NullifierAccount::find(Some(tree)).0);
    if d.is_empty() {
        return None;
    }
    <NullifierAccount as ProgramAccount>::new(&mut d).unwrap().get_child_pubkey(0)
}
/// an admissible request and the accounts it needs
pub fn vnet(r: &mut Rng) -> V {
    let n = net(r);
    let mut n = NetC { w: n.w, token: n.token, pool: n.pool, collector: n.collector, payer: n.payer, fee: n.fee, version: n.version, rate: n.rate, prices: n.prices };
    let i = r.below(129) as u8;
    let acc = VerificationAccount::find_with_pubkey(n.payer, Some(i as u32)).0;
    // the active tree and its root history
    let active = r.below(20) as u32;
    let ptr = r.range(1, 1 << 20) as u32;
    let count = r.range(1, 130) as usize;
    let raw: Vec<U256> = (0..count.min(100)).map(|_| r.scalar()).collect();
    edit::<StorageAccount>(&mut n.w, None, |d| {
        let mut s = StorageAccount::new_with_child_accounts(d, vec![None; 25]).unwrap();
        s.set_next_commitment_ptr(&ptr);
        s.set_trees_count(&active);
        s.set_mt_roots_count(&(count as u32));
        for (i, x) in raw.iter().enumerate() {
            s.set_active_mt_root_history(i, &RawU256::new(*x).reduce());
        }
    });
    let first_active = r.chance(1, 2);
    let other = active + 1 + r.below(5) as u32;
    let ti = if first_active { [active, other] } else { [other, active] };
    let closed_root = r.scalar();
    let spent: Vec<Vec<U256>> = (0..2).map(|_| (0..r.below(6)).map(|_| r.scalar()).collect()).collect();
    for k in 0..2 {
        let pre: Vec<U256> = spent[k].iter().map(|x| RawU256::new(*x).reduce()).collect();
        let root = if ti[k] == active { [0; 32] } else { RawU256::new(closed_root).reduce() };
        nullifier_world(&mut n.w, r, ti[k], root, &pre);
    }
    let roots: Vec<Vec<U256>> = (0..2).map(|k| if ti[k] == active { raw.clone() } else { vec![closed_root] }).collect();
    let vk = put::<VKeyAccount>(&mut n.w, Some(SendQuadraVKey::VKEY_ID));
    {
        let d = &mut n.w.accs.get_mut(&vk).unwrap().data;
        let mut a = <VKeyAccount as ProgramAccount>::new(d).unwrap();
        a.set_public_inputs_count(&14);
        a.set_version(&1);
    }
    let arity = r.range(1, 4) as usize;
    let second = if arity > 1 && r.chance(1, 3) { r.range(1, arity as u64 - 1) as usize } else { 9 };
    let input_commitments = (0..arity)
        .map(|k| InputCommitment {
            root: if k == 0 { Some(RawU256::new(r.pick(&roots[0]))) } else if k == second { Some(RawU256::new(r.pick(&roots[1]))) } else { None },
            nullifier_hash: RawU256::new(r.scalar()),
        })
        .collect();
    let back = match r.below(3) {
        0 => 0,
        1 => 127,
        _ => r.below(128) as u32,
    };
    let amt = match r.below(8) {
        0 => 0,
        _ => r.range(1_000_000_000, 90_000_000_000),
    };
    let opt = match r.below(4) {
        0 => amt / 7,
        1 => 1.min(amt),
        _ => 0,
    };
    let collector = r.key();
    let ata_r = n.token > 0 && amt > 0 && r.chance(1, 2);
    let mut v = V {
        i,
        acc,
        ti,
        vk: SendQuadraVKey::VKEY_ID,
        skip: false,
        recipient: r.key(),
        ident: r.key(),
        reference: if r.chance(1, 2) { IXS } else { r.key() },
        iv: r.bytes32(),
        enc: r.bytes32(),
        memo: if r.chance(1, 3) { Some(r.bytes32()[..r.below(20) as usize].to_vec()) } else { None },
        req: SendPublicInputs {
            join_split: JoinSplitPublicInputs {
                input_commitments,
                output_commitment: RawU256::new(r.scalar()),
                recent_commitment_index: ptr.saturating_sub(back),
                fee_version: n.version,
                amount: amt,
                fee: 0,
                optional_fee: OptionalFee { collector: if n.token == 0 { collector } else { ata(&collector, n.token) }, amount: opt },
                token_id: n.token,
                metadata: metadata(r),
            },
            recipient_is_associated_token_account: ata_r,
            solana_pay_transfer: r.chance(1, 4),
            hashed_inputs: [0; 32],
        },
        n,
        spent,
        roots,
        ptr,
    };
    if v.n.token > 0 && opt > 0 {
        let k = v.req.join_split.optional_fee.collector;
        let m = TOKENS[v.n.token as usize].mint;
        v.n.w.put(k, rent(165), token_account_data(&m, &collector, 7), spl_token::ID);
    }
    v.req.hashed_inputs = o_hash_inputs(&v);
    // the offered fee determines the schedule of the input preparation, which determines the fee
    for _ in 0..6 {
        let f = o_total(&v).unwrap_or(0);
        if f <= v.req.join_split.fee {
            break;
        }
        v.req.join_split.fee = f + r.below(3);
    }
    v
}
pub fn describe(v: &V) -> String {
    let j = &v.req.join_split;
    format!(
        "token {} amount {} fee {} optional fee {} inputs {} roots {:?} trees {:?} rate {} account index {} ATA {} solana pay {} memo {:?}",
        j.token_id,
        j.amount,
        j.fee,
        j.optional_fee.amount,
        j.input_commitments.len(),
        j.input_commitments.iter().map(|c| c.root.is_some()).collect::<Vec<_>>(),
        v.ti,
        v.n.rate,
        v.i,
        v.req.recipient_is_associated_token_account,
        v.req.solana_pay_transfer,
        v.memo.as_ref().map(|m| m.len())
    )
}
pub fn dup(v: &V) -> Pubkey {
    v.req.join_split.nullifier_duplicate_pda().0
}
pub fn init_ix(v: &V) -> Instruction {
    let mut a = vec![
        sw(v.n.payer),
        w(v.acc),
        ro(VKeyAccount::find(Some(SendQuadraVKey::VKEY_ID)).0),
        w(dup(v)),
        ro(SYS),
        ro(v.ident),
        ro(StorageAccount::find(None).0),
        w(CommitmentBufferAccount::find(None).0),
    ];
    for k in 0..2 {
        a.push(ro(NullifierAccount::find(Some(v.ti[k])).0));
        a.extend(children(&v.n.w, v.ti[k]).into_iter().map(ro));
    }
    ix(a, ElusivInstruction::InitVerification { verification_account_index: v.i, vkey_id: v.vk, tree_indices: v.ti, request: ProofRequest::Send(v.req.clone()), skip_nullifier_pda: v.skip })
}
pub fn fee_ix(v: &V) -> Instruction {
    let t = v.n.token;
    ix(
        vec![
            sw(v.n.payer),
            w(ata(&v.n.payer, t)),
            w(v.n.pool),
            w(ata(&v.n.pool, t)),
            w(v.n.collector),
            w(ata(&v.n.collector, t)),
            ro(TOKENS[0].pyth_usd_price_key),
            ro(TOKENS[t as usize].pyth_usd_price_key),
            ro(GovernorAccount::find(None).0),
            w(v.acc),
            ro(if t == 0 { SYS } else { spl_token::ID }),
            ro(SYS),
        ],
        ElusivInstruction::InitVerificationTransferFee { verification_account_index: v.i },
    )
}
pub fn zero_proof() -> Proof {
    use ark_ec::AffineCurve;
    Proof { a: G1A(ark_bn254::G1Affine::prime_subgroup_generator()), b: G2A(ark_bn254::G2Affine::prime_subgroup_generator()), c: G1A(ark_bn254::G1Affine::prime_subgroup_generator()) }
}
pub fn proof_ix(v: &V) -> Instruction {
    ix(vec![sg(v.n.payer), w(v.acc)], ElusivInstruction::InitVerificationProof { verification_account_index: v.i, proof: zero_proof() })
}
fn queue_len(v: &V) -> u32 {
    let mut d = v.n.w.data(&CommitmentQueueAccount::find(None).0);
    CommitmentQueue::new(&mut acct!(d, CommitmentQueueAccount)).len()
}
pub fn send_data(v: &V) -> FinalizeSendData {
    let j = &v.req.join_split;
    let mut d = v.n.w.data(&StorageAccount::find(None).0);
    let s = StorageAccount::new_with_child_accounts(&mut d, vec![None; 25]).unwrap();
    let c = (s.get_next_commitment_ptr() + queue_len(v)) as u64;
    FinalizeSendData { total_amount: j.amount + j.fee, token_id: j.token_id, mt_index: s.get_trees_count() + (c >> 20) as u32, commitment_index: (c % (1 << 20)) as u32, iv: v.iv, encrypted_owner: v.enc }
}
pub fn send_ix(v: &V, data: FinalizeSendData) -> Instruction {
    ix(
        vec![
            ro(v.recipient),
            ro(v.ident),
            ro(v.reference),
            ro(v.n.payer),
            w(CommitmentQueueAccount::find(None).0),
            w(v.acc),
            ro(StorageAccount::find(None).0),
            w(CommitmentBufferAccount::find(None).0),
            ro(IXS),
        ],
        ElusivInstruction::FinalizeVerificationSend { verification_account_index: v.i, data, uses_memo: v.memo.is_some() },
    )
}
/// the child accounts of a nullifier account
pub fn children(wd: &World, tree: u32) -> Vec<Pubkey> {
    let mut d = wd.data(&NullifierAccount::find(Some(tree)).0);
    let na = <NullifierAccount as ProgramAccount>::new(&mut d).unwrap();
    (0..16).filter_map(|i| na.get_child_pubkey(i)).collect()
}
pub fn insert_ix(v: &V) -> Instruction {
    let mut a = vec![ro(v.n.payer), w(v.acc), w(NullifierAccount::find(Some(v.ti[0])).0)];
    a.extend(children(&v.n.w, v.ti[0]).into_iter().map(w));
    ix(a, ElusivInstruction::FinalizeVerificationInsertNullifier { verification_account_index: v.i })
}
pub fn rec_account(v: &V) -> Pubkey {
    if v.req.recipient_is_associated_token_account { ata(&v.recipient, v.n.token) } else { v.recipient }
}
pub fn pay_ix(v: &V) -> Instruction {
    let q = |k: Pubkey| w(k);
    let t = v.n.token;
    let opt = v.req.join_split.optional_fee.collector;
    if t == 0 {
        ix(
            vec![
                sw(v.n.payer),
                q(v.recipient),
                q(v.n.pool),
                q(v.n.collector),
                q(opt),
                q(CommitmentQueueAccount::find(None).0),
                q(MetadataQueueAccount::find(None).0),
                q(v.acc),
                q(dup(v)),
                ro(SYS),
                ro(IXS),
            ],
            ElusivInstruction::FinalizeVerificationTransferLamports { verification_account_index: v.i },
        )
    } else {
        ix(
            vec![
                sw(v.n.payer),
                q(ata(&v.n.payer, t)),
                q(rec_account(v)),
                ro(v.recipient),
                q(v.n.pool),
                q(ata(&v.n.pool, t)),
                q(v.n.collector),
                q(ata(&v.n.collector, t)),
                q(opt),
                q(CommitmentQueueAccount::find(None).0),
                q(MetadataQueueAccount::find(None).0),
                q(v.acc),
                q(dup(v)),
                ro(spl_associated_token_account::ID),
                ro(spl_token::ID),
                ro(SYS),
                ro(TOKENS[t as usize].mint),
                ro(IXS),
            ],
            ElusivInstruction::FinalizeVerificationTransferToken { verification_account_index: v.i },
        )
    }
}
fn memo_ix(m: &[u8]) -> Instruction {
    Instruction { program_id: memo_id(), accounts: vec![], data: m.to_vec() }
}
/// the amount that reaches the recipient; `created` is the rent of a new token account
fn net_amount(v: &V, rent_token: u64) -> u64 {
    v.req.join_split.amount.saturating_sub(v.req.join_split.optional_fee.amount).saturating_sub(rent_token)
}
fn forward_ix(v: &V, rent_token: u64) -> Instruction {
    let a = net_amount(v, rent_token);
    if v.n.token == 0 {
        solana_program::system_instruction::transfer(&v.n.payer, &v.recipient, a)
    } else {
        spl_token::instruction::transfer(&spl_token::ID, &ata(&v.n.payer, v.n.token), &rec_account(v), &v.n.payer, &[&v.n.payer], a).unwrap()
    }
}
/// the transaction that finalizes: send, insertions, payout, memo, forwarded payment
pub fn final_tx(v: &V, data: FinalizeSendData, rent_token: u64) -> Vec<Instruction> {
    let mut tx = vec![send_ix(v, data)];
    for _ in 0..v.req.join_split.input_commitments.len() {
        tx.push(insert_ix(v));
    }
    tx.push(pay_ix(v));
    if let Some(m) = &v.memo {
        tx.push(memo_ix(m));
    }
    if v.req.solana_pay_transfer {
        tx.push(forward_ix(v, rent_token));
    }
    tx
}
pub fn vacc<T>(v: &mut V, f: impl FnOnce(&mut VerificationAccount) -> T) -> T {
    let d = &mut v.n.w.accs.get_mut(&v.acc).unwrap().data;
    let mut a = <VerificationAccount as ProgramAccount>::new(d).unwrap();
    f(&mut a)
}
pub fn must(g: Res, key: &str) -> Result<Vec<Event>, crate::Viol> {
    g.map_err(|e| crate::Viol { key: key.into(), what: format!("a step with correct arguments is refused: {e:?}") })
}
fn affordable(v: &V) -> bool {
    let j = &v.req.join_split;
    let rt = rent_token(v);
    o_total(v).map(|f| f <= j.fee).unwrap_or(false) && (j.token_id != 0 || j.amount == 0 || j.amount >= rent(0)) && (!v.req.recipient_is_associated_token_account || j.amount as u128 >= rt as u128 + j.optional_fee.amount as u128)
}
pub fn rent_token(v: &V) -> u64 {
    if v.req.recipient_is_associated_token_account { into_token(&as_net(&v.n), rent(165)) } else { 0 }
}
/// 0: opened, 1: fee paid, 2: proof set, 3: verdict known
pub fn drive(v: &mut V, to: u8, verdict: bool) -> R {
    let i = init_ix(v);
    must(run(&mut v.n.w, &[i], 0), "init-refused")?;
    if to >= 1 {
        let i = fee_ix(v);
        must(run(&mut v.n.w, &[i], 0), "fee-refused")?;
    }
    if to >= 2 {
        let i = proof_ix(v);
        must(run(&mut v.n.w, &[i], 0), "proof-refused")?;
    }
    if to >= 3 {
        vacc(v, |a| a.set_is_verified(&ElusivOption::Some(verdict)));
    }
    Ok(())
}
/// runs the send and the insertions of the final transaction
fn drive_final(v: &mut V, tx: &[Instruction], inserts: usize) -> R {
    must(run(&mut v.n.w, tx, 0), "send-refused")?;
    for k in 0..inserts {
        must(run(&mut v.n.w, tx, 1 + k), "insert-refused")?;
    }
    Ok(())
}
fn single_tree(v: &mut V) {
    for c in v.req.join_split.input_commitments.iter_mut().skip(1) {
        c.root = None
    }
    refee(v)
}
fn refee(v: &mut V) {
    v.req.hashed_inputs = o_hash_inputs(v);
    for _ in 0..6 {
        let f = o_total(v).unwrap_or(0);
        if f <= v.req.join_split.fee {
            break;
        }
        v.req.join_split.fee = f;
    }
}
/// a verification that can be carried out
pub fn vready(r: &mut Rng) -> V {
    loop {
        let mut v = vnet(r);
        single_tree(&mut v);
        if affordable(&v) {
            // the recipient of tokens
            if v.n.token > 0 && !v.req.recipient_is_associated_token_account {
                let m = TOKENS[v.n.token as usize].mint;
                let o = r.key();
                v.n.w.put(v.recipient, rent(165), token_account_data(&m, &o, 3), spl_token::ID);
            }
            if v.n.token == 0 {
                let k = v.recipient;
                v.n.w.sys(k, 1 << 30);
                let k = v.req.join_split.optional_fee.collector;
                v.n.w.sys(k, 1 << 30);
            }
            return v;
        }
    }
}

// ---------------------------------------------------------------- V01
fn v01(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    say!(t, "{}", describe(&v));
    let verdict = r.chance(3, 4);
    // 0 opened 1 fee 2 proof 3 verdict 4 inserting 5 finalized 6 paid; 7 opened and verdict already known 8 fee paid, verdict known
    let stage = r.below(9) as u8;
    let k = v.req.join_split.input_commitments.len();
    let rt = if v.req.recipient_is_associated_token_account { rent_token(&v) } else { 0 };
    v.n.w.keep = true;
    let base = match stage {
        0 | 1 | 2 | 3 => stage,
        7 => 0,
        8 => 1,
        _ => 3,
    };
    drive(&mut v, base, if stage == 4 { true } else { verdict })?;
    if stage >= 7 {
        vacc(&mut v, |a| a.set_is_verified(&ElusivOption::Some(false)));
    }
    let data = send_data(&v);
    let tx = final_tx(&v, data, rt);
    if (4..7).contains(&stage) {
        let done = if stage == 4 { r.below(k as u64) as usize } else if verdict { k } else { 0 };
        drive_final(&mut v, &tx, done)?;
    }
    if stage == 6 {
        must(run(&mut v.n.w, &tx, 1 + k), "payout-refused")?;
        // the account is still there until the end of the transaction and may be funded again
        v.n.w.accs.get_mut(&v.acc).unwrap().lamports = 1 << 40;
        let (d, kd) = (dup(&v), vec![0u8; 2]);
        if let Some(a) = v.n.w.accs.get_mut(&d) {
            a.lamports = 1 << 40;
            if a.data.is_empty() {
                a.data = kd
            }
        }
    }
    let names = ["transfer-fee", "set-proof", "finalize-send", "insert-nullifier", "payout"];
    let which = r.below(5) as usize;
    let (one, at): (Vec<Instruction>, usize) = match which {
        0 => (vec![fee_ix(&v)], 0),
        1 => (vec![proof_ix(&v)], 0),
        2 => (tx.clone(), 0),
        3 => (tx.clone(), 1),
        _ => (tx.clone(), 1 + k),
    };
    let allowed = match which {
        0 => stage == 0 || stage == 7,
        1 => stage == 1,
        2 => stage == 3,
        3 => stage == 4,
        _ => stage == 5,
    };
    say!(t, "stage {stage} (verdict {verdict}), attempt {}", names[which]);
    let before = v.n.w.clone();
    let g = run(&mut v.n.w, &one, at);
    if allowed {
        ck!(g.is_ok(), &format!("refused-{}", names[which]), "the instruction is refused in its own stage: {g:?}");
    } else {
        ck!(g.is_err(), &format!("out-of-order-{}", names[which]), "the instruction is accepted in stage {stage}");
        let mut b = before;
        b.accs.remove(&IXS);
        let mut a = v.n.w.clone();
        a.accs.remove(&IXS);
        for (k, x) in &b.accs {
            ck!(a.accs[k] == *x, "changed", "a refused instruction changes {k}");
        }
    }
    t.mark();
    Ok(())
}

fn v01_payer(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    say!(t, "{}", describe(&v));
    let stage = [0u8, 1, 3][r.below(3) as usize];
    drive(&mut v, stage, r.chance(1, 2))?;
    let k = v.req.join_split.input_commitments.len();
    let rt = rent_token(&v);
    let tx = final_tx(&v, send_data(&v), rt);
    let mut verdict = false;
    if stage == 3 {
        verdict = vacc(&mut v, |a| a.get_is_verified() == ElusivOption::Some(true));
        drive_final(&mut v, &tx, if verdict { k } else { 0 })?;
    }
    let (mut txs, at) = match stage {
        0 => (vec![fee_ix(&v)], 0),
        1 => (vec![proof_ix(&v)], 0),
        _ => (tx, 1 + k),
    };
    let kind = r.below(3);
    let thief = r.key();
    v.n.w.sys(thief, 1 << 50);
    if v.n.token > 0 {
        let a = ata(&thief, v.n.token);
        v.n.w.put(a, rent(165), token_account_data(&TOKENS[v.n.token as usize].mint, &thief, 1 << 55), spl_token::ID);
    }
    match kind {
        // the payer did not sign
        0 => txs[at].accounts[0].is_signer = false,
        // someone else pays, with the same account
        1 => {
            let p = v.n.payer;
            for m in txs[at].accounts.iter_mut() {
                if m.pubkey == p {
                    m.pubkey = thief
                } else if m.pubkey == ata(&p, v.n.token) {
                    m.pubkey = ata(&thief, v.n.token)
                }
            }
        }
        // the account records another payer
        _ => vacc(&mut v, |a| {
            let mut d = a.get_other_data();
            d.fee_payer = RawU256::new(thief.to_bytes());
            a.set_other_data(&d);
        }),
    }
    say!(t, "stage {stage} verdict {verdict} impostor {kind}");
    let g = run(&mut v.n.w, &txs, at);
    ck!(g.is_err(), &format!("payer-{stage}-{kind}"), "accepted for another fee payer");
    t.mark();
    Ok(())
}

/// the verdict is only computed in its stages, and the input preparation runs its schedule
fn v01_compute(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    v.req.join_split.fee_version = v.n.version;
    drive(&mut v, 0, true)?;
    let stage = r.below(6) as u8;
    let (st, verified) = (
        [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed][stage as usize].clone(),
        r.chance(1, 4),
    );
    let zero = r.chance(1, 2);
    let rounds0 = vacc(&mut v, |a| {
        a.set_state(&st);
        if verified {
            a.set_is_verified(&ElusivOption::Some(r.chance(1, 2)));
        }
        if zero {
            for i in 0..14 {
                a.set_public_input(i, &RawU256::new([0; 32]));
            }
            a.set_prepare_inputs_instructions_count(&1);
            a.set_prepare_inputs_instructions(0, &(33 * 14));
        }
        a.get_prepare_inputs_instructions(0) as u32
    });
    let vkd = &mut v.n.w.accs.get_mut(&VKeyAccount::find(Some(0)).0).unwrap().data.clone();
    let size = elusiv::proof::vkey::VerifyingKey::source_size(14) + 1;
    let mut child = Child { key: Pubkey::new_unique(), owner: elusiv::id(), lamports: 1, data: vec![0; size] };
    let ci = child.info();
    let setup = r.chance(7, 8);
    let id = if r.chance(7, 8) { 0 } else { 1 };
    let mut vk = VKeyAccount::new_with_child_accounts(vkd, vec![Some(&ci), None]).unwrap();
    if !setup {
        vk.set_version(&0);
    }
    let b = solana_program::sysvar::instructions::construct_instructions_data(&[]);
    let mut b = b;
    solana_program::sysvar::instructions::store_current_index(&mut b, 6);
    let mut l = 1;
    let o = Pubkey::default();
    let info = solana_program::account_info::AccountInfo::new(&IXS, false, false, &mut l, &mut b, &o, false, 0);
    let ok = setup && id == 0 && !verified && matches!(st, VerificationState::None | VerificationState::ProofSetup);
    say!(t, "state {st:?} verdict known {verified} key set up {setup} key id {id}, first step of {rounds0} rounds");
    let mut d = v.n.w.data(&v.acc);
    let before = d.clone();
    let g = {
        let mut a = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        guarded(|| compute_verification(&mut a, &vk, &info, v.i, id))
    };
    if !ok {
        ck!(!matches!(g, Ok(Ok(()))), "out-of-order-compute", "the computation runs in state {st:?} (verdict known {verified}, key set up {setup}, key id {id})");
        ck!(matches!(g, Err(_)) || d == before, "changed", "a refused step changes the account");
        t.mark();
        return Ok(());
    }
    if zero {
        ck!(matches!(g, Ok(Ok(()))), "compute-refused", "a step is refused: {g:?}");
        let a = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        ck!(matches!(a.get_step(), elusiv::proof::verifier::VerificationStep::CombinedMillerLoop), "step", "the preparation of the inputs does not end with its last round");
        t.mark();
    }
    Ok(())
}

// ---------------------------------------------------------------- V02
fn v02(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vnet(r);
    let kind = r.below(26);
    let mut ok = false;
    let nin = v.req.join_split.input_commitments.len();
    let two = v.req.join_split.input_commitments.iter().filter(|c| c.root.is_some()).count() == 2;
    let mut name = "admissible";
    let active = {
        let mut d = v.n.w.data(&StorageAccount::find(None).0);
        StorageAccount::new_with_child_accounts(&mut d, vec![None; 25]).unwrap().get_trees_count()
    };
    let tree_of = |v: &V, k: usize| if v.req.join_split.input_commitments[k].root.is_some() && k > 0 { 1 } else { 0 };
    match kind {
        0 => {
            name = "no root for the first input";
            v.req.join_split.input_commitments[0].root = None;
        }
        1 => {
            name = "five inputs";
            while v.req.join_split.input_commitments.len() < 5 {
                v.req.join_split.input_commitments.push(InputCommitment { root: None, nullifier_hash: RawU256::new(r.scalar()) })
            }
        }
        2 if nin >= 3 => {
            name = "three roots";
            for k in 1..3 {
                v.req.join_split.input_commitments[k].root = Some(RawU256::new(r.pick(&v.roots[1])));
            }
        }
        3 => {
            name = "unknown root";
            let k = if two && r.chance(1, 2) { (1..nin).find(|k| v.req.join_split.input_commitments[*k].root.is_some()).unwrap() } else { 0 };
            let bad = match r.below(4) {
                0 => [0; 32],
                1 => {
                    let mut x = v.req.join_split.input_commitments[k].root.unwrap().skip_mr();
                    x[r.below(31) as usize] ^= 1 << r.below(8);
                    x
                }
                // a root of the other tree
                2 => r.pick(&v.roots[1 - if k == 0 { 0 } else { 1 }]),
                _ => r.scalar(),
            };
            v.req.join_split.input_commitments[k].root = Some(RawU256::new(bad));
        }
        4 if nin >= 2 => {
            name = "two inputs with one nullifier hash";
            let (a, b) = {
                let a = r.below(nin as u64) as usize;
                let mut b = r.below(nin as u64 - 1) as usize;
                if b >= a {
                    b += 1
                }
                (a, b)
            };
            v.req.join_split.input_commitments[b].nullifier_hash = v.req.join_split.input_commitments[a].nullifier_hash;
            ok = tree_of(&v, a) != tree_of(&v, b);
        }
        5 | 6 => {
            let k = r.below(nin as u64) as usize;
            let tr = tree_of(&v, k);
            if let Some(s) = v.spent[tr].get(0) {
                name = "spent nullifier hash";
                v.req.join_split.input_commitments[k].nullifier_hash = RawU256::new(*s);
            } else {
                ok = true
            }
        }
        7 => {
            name = "zero commitment";
            v.req.join_split.output_commitment = RawU256::new(ZERO_COMMITMENT_RAW);
        }
        8 => {
            name = "recent index ahead";
            v.req.join_split.recent_commitment_index = v.ptr + 1 + r.below(4) as u32;
        }
        9 if v.ptr >= 128 => {
            name = "recent index too old";
            v.req.join_split.recent_commitment_index = v.ptr - 128 - r.below(2).min(v.ptr as u64 - 128) as u32;
        }
        10 => {
            name = "optional fee above the amount";
            v.req.join_split.optional_fee.amount = v.req.join_split.amount + 1 + r.below(3);
        }
        11 => {
            name = "one tree named twice";
            if !two {
                ok = true;
            } else {
                // both inputs are then for the first tree
                v.ti[1] = v.ti[0];
                let root = v.req.join_split.input_commitments[0].root;
                for c in v.req.join_split.input_commitments.iter_mut().skip(1) {
                    if c.root.is_some() {
                        c.root = root
                    }
                }
            }
        }
        12 => {
            name = "no inputs";
            v.req.join_split.input_commitments.clear();
        }
        13 => {
            name = "amount and fee beyond 64 bits";
            let total = r.below(1 << 40);
            let a = u64::MAX - r.below(1 << 50);
            v.req.join_split.amount = a;
            v.req.join_split.fee = total.wrapping_sub(a);
            if a as u128 + v.req.join_split.fee as u128 <= u64::MAX as u128 {
                ok = true
            }
        }
        14 => {
            name = "key not set up";
            let k = VKeyAccount::find(Some(0)).0;
            <VKeyAccount as ProgramAccount>::new(&mut v.n.w.accs.get_mut(&k).unwrap().data).unwrap().set_version(&0);
        }
        15 => {
            name = "other key";
            v.vk = 1 + r.below(3) as u32;
        }
        16 => {
            name = "spent nullifier hash waiting to be moved";
            let k = r.below(nin as u64) as usize;
            let tr = tree_of(&v, k);
            if tr == 0 && v.ti[0] == v.ti[1] {
                ok = true
            }
            v.req.join_split.input_commitments[k].nullifier_hash = RawU256::new(r.scalar());
            let x = v.req.join_split.input_commitments[k].nullifier_hash.reduce();
            let nk = NullifierAccount::find(Some(v.ti[tr])).0;
            set_moved(&mut v.n.w.accs.get_mut(&nk).unwrap().data, &[(x, 1)]);
        }
        17 if !two => {
            name = "the second tree is not used";
            // an input without root always belongs to the first tree, whatever the second tree holds
            ok = true;
            if let (Some(s), true) = (v.spent[1].get(0), nin > 1) {
                v.req.join_split.input_commitments[nin - 1].nullifier_hash = RawU256::new(*s);
            }
        }
        18 => {
            name = "largest windows";
            ok = true;
            v.req.join_split.optional_fee.amount = v.req.join_split.amount;
            v.req.join_split.recent_commitment_index = v.ptr.saturating_sub(127);
        }
        _ => ok = true,
    }
    let _ = active;
    say!(t, "{name}: {}", describe(&v));
    let dupk = guarded(|| dup(&v));
    if dupk.is_err() {
        return Ok(());
    }
    let i = init_ix(&v);
    let g = run(&mut v.n.w, &[i], 0);
    if ok {
        ck!(g.is_ok(), "refused", "an admissible verification ({name}) is refused: {g:?}");
    } else {
        ck!(g.is_err(), &format!("accepted: {name}"), "a verification is opened although: {name}");
    }
    t.mark();
    Ok(())
}
/// makes values wait to be moved (written through the serialized layout of the account's last fields)
pub fn set_moved(d: &mut Vec<u8>, vals: &[(U256, u8)]) {
    // moved_values_count: u8, moved_values: [U256; 4], moved_values_target: [u8; 4]
    let n = d.len();
    let at = n - 4 - 128 - 1;
    d[at] = vals.len() as u8;
    for (i, (v, tg)) in vals.iter().enumerate() {
        d[at + 1 + i * 32..at + 33 + i * 32].copy_from_slice(v);
        d[n - 4 + i] = *tg;
    }
}

// ---------------------------------------------------------------- V03
fn v03(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vnet(r);
    say!(t, "{}", describe(&v));
    let out = v.req.join_split.output_commitment.reduce();
    let (b, a0, p0) = (v.n.w.clone(), v.n.w.lamports(&v.acc), v.n.w.lamports(&v.n.payer));
    let i = init_ix(&v);
    must(run(&mut v.n.w, &[i.clone()], 0), "init-refused")?;
    let sig = o_signals(&v.req);
    let sch = o_schedule(&sig);
    let payer = v.n.payer;
    let (ti, req) = (v.ti, v.req.clone());
    vacc(&mut v, |a| {
        ck!(a.get_request() == ProofRequest::Send(req), "request", "the stored request differs");
        ck!(a.all_tree_indices() == ti, "trees", "stored tree indices {:?}, expected {ti:?}", a.all_tree_indices());
        ck!(a.get_vkey_id() == 0, "key", "key id {}", a.get_vkey_id());
        for (i, s) in sig.iter().enumerate() {
            ck!(a.load_raw_public_input(i) == *s && a.get_public_input(i).skip_mr() == *s, "signals", "public signal {i} is {:?}, expected {s:?}", a.load_raw_public_input(i));
        }
        let o = a.get_other_data();
        ck!(o.fee_payer.skip_mr() == payer.to_bytes() && !o.skip_nullifier_pda && o.recipient_wallet.clone().option().is_none(), "payer", "the fee payer is not recorded");
        ck!(a.get_state() == VerificationState::None && a.get_is_verified().option().is_none(), "stage", "state {:?}", a.get_state());
        ck!(matches!(a.get_step(), elusiv::proof::verifier::VerificationStep::PublicInputPreparation), "first-step", "the computation does not start at its first step");
        let n = a.get_prepare_inputs_instructions_count() as usize;
        let got: Vec<u32> = (0..n.min(140)).map(|i| a.get_prepare_inputs_instructions(i) as u32).collect();
        ck!(n == sch.len() && got == sch, "schedule", "the schedule of the inputs is {got:?}, expected {sch:?}");
        Ok(())
    })?;
    let mut bd = v.n.w.data(&CommitmentBufferAccount::find(None).0);
    ck!(acct!(bd, CommitmentBufferAccount).find_position(&out).is_some(), "recent", "the output commitment is not added to the recent ones");
    // only the new accounts and the buffer change, paid by the fee payer
    let d = dup(&v);
    ck!(v.n.w.accs[&d].owner == elusiv::id() && v.n.w.lamports(&d) > 0, "guard", "the guard account is not opened");
    let cost = v.n.w.lamports(&v.acc) - a0 + v.n.w.lamports(&d);
    ck!(v.n.w.lamports(&payer) == p0 - cost, "rent", "the fee payer pays {}, expected {cost}", p0 - v.n.w.lamports(&payer));
    for (k, x) in &b.accs {
        if ![v.acc, d, payer, CommitmentBufferAccount::find(None).0].contains(k) {
            ck!(v.n.w.accs[k] == *x, "other-account", "the account {k} changes");
        }
    }
    t.mark();
    Ok(())
}
fn v03_dup(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vnet(r);
    let kind = r.below(6);
    say!(t, "kind {kind}: {}", describe(&v));
    if kind == 4 {
        // skipping a guard that does not exist
        v.skip = true;
        let d = dup(&v);
        if r.chance(1, 2) {
            // the right bump, no funds
            let b = v.req.join_split.nullifier_duplicate_pda().1;
            let mut a = crate::svm::Acc { lamports: 0, data: vec![b], owner: elusiv::id() };
            a.data.push(0);
            v.n.w.accs.insert(d, a);
        }
        let i = init_ix(&v);
        let g = run(&mut v.n.w, &[i], 0);
        ck!(g.is_err(), "skip-missing", "opened although the guard to be skipped does not exist");
        t.mark();
        return Ok(());
    }
    let i = init_ix(&v);
    must(run(&mut v.n.w, &[i], 0), "init-refused")?;
    // the second verification: another account, maybe another output and payer data
    let mut u = v.clone();
    u.i = (v.i + 1) % 129;
    u.acc = VerificationAccount::find_with_pubkey(u.n.payer, Some(u.i as u32)).0;
    u.req.join_split.output_commitment = RawU256::new(r.scalar());
    let mut ok = false;
    let what = match kind {
        0 => "the same nullifier hashes",
        1 => {
            u.skip = true;
            ok = true;
            "the same nullifier hashes, skipping the guard"
        }
        2 => {
            u.skip = true;
            u.req.join_split.output_commitment = v.req.join_split.output_commitment;
            "a recent output commitment"
        }
        3 => {
            u.req.join_split.output_commitment = v.req.join_split.output_commitment;
            for c in u.req.join_split.input_commitments.iter_mut() {
                c.nullifier_hash = RawU256::new(r.scalar())
            }
            "a recent output commitment and new nullifier hashes"
        }
        _ => {
            for c in u.req.join_split.input_commitments.iter_mut() {
                c.nullifier_hash = RawU256::new(r.scalar())
            }
            let d = dup(&u);
            let wrong = r.chance(1, 2);
            let mut i = init_ix(&u);
            if wrong {
                // skipping with the guard of other nullifier hashes
                u.skip = true;
                i = init_ix(&u);
                i.accounts[3].pubkey = dup(&v);
            }
            let g = run(&mut u.n.w, &[i], 0);
            ck!(g.is_ok() != wrong, "foreign-guard", "opened {}: {d}", g.is_ok());
            t.mark();
            return Ok(());
        }
    };
    say!(t, "then {what}");
    let i = init_ix(&u);
    let g = run(&mut u.n.w, &[i], 0);
    ck!(g.is_ok() == ok, if ok { "skip-refused" } else { "duplicate" }, "a verification with {what} is opened: {}", g.is_ok());
    if ok {
        let b = vacc(&mut u, |a| a.get_other_data().skip_nullifier_pda);
        ck!(b, "skip-record", "skipping the guard is not recorded");
    }
    t.mark();
    Ok(())
}

// ---------------------------------------------------------------- V04
fn v04(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vnet(r);
    // around the exact fee
    let Some(total) = o_total(&v) else { return Ok(()) };
    if r.chance(2, 3) {
        v.req.join_split.fee = (total + r.below(2)).saturating_sub(r.below(2));
    }
    if r.chance(1, 3) && v.n.token == 0 {
        v.req.join_split.amount = match r.below(3) {
            0 => rent(0) - r.below(2),
            1 => r.below(3),
            _ => rent(0) + r.below(2),
        };
        v.req.join_split.optional_fee.amount = v.req.join_split.optional_fee.amount.min(v.req.join_split.amount);
    }
    if v.req.recipient_is_associated_token_account && r.chance(1, 2) {
        let x = rent_token(&v) + r.below(100);
        v.req.join_split.optional_fee.amount = x - rent_token(&v);
        v.req.join_split.amount = (x + r.below(2)).saturating_sub(r.below(2)).max(v.req.join_split.optional_fee.amount);
    }
    let Some(total) = o_total(&v) else { return Ok(()) };
    let ok = affordable(&v);
    let i = init_ix(&v);
    must(run(&mut v.n.w, &[i], 0), "init-refused")?;
    say!(t, "{} required fee {total} {} prices {:?}", describe(&v), dump(&v.n.fee), v.n.prices);
    let keys = [v.n.payer, v.n.pool, v.n.collector];
    let bal = |v: &V| keys.iter().map(|k| (v.n.w.lamports(k) as i128, if v.n.token == 0 { 0 } else { v.n.w.token_amount(&ata(k, v.n.token)) as i128 })).collect::<Vec<_>>();
    let (b, before) = (bal(&v), v.n.w.clone());
    let i = fee_ix(&v);
    let g = run(&mut v.n.w, &[i], 0);
    if !ok {
        ck!(g.is_err(), "undercharged", "the fee {} is accepted, required {total}; amount {}, optional fee {}, rent {}", v.req.join_split.fee, v.req.join_split.amount, v.req.join_split.optional_fee.amount, rent_token(&v));
        t.mark();
        return Ok(());
    }
    ck!(g.is_ok(), "refused", "a sufficient fee is refused: {g:?}");
    let a = bal(&v);
    let (hl, h, p, nw, s) = o_fee(&v);
    let rl = if v.req.recipient_is_associated_token_account { rent(165) } else { 0 } as i128;
    let (mut e, s_) = (vec![(-(hl as i128) - rl, 0), (hl as i128 + rl, 0), (0, 0)], s as i128);
    if v.n.token == 0 {
        e[1].0 += s_;
        e[2].0 -= s_;
    } else {
        e[1].1 += s_;
        e[2].1 -= s_;
    }
    for i in 0..3 {
        let got = (a[i].0 - b[i].0, a[i].1 - b[i].1);
        ck!(got == e[i], "amounts", "the {} gains (lamports, tokens) {got:?}, expected {:?}", ["fee payer", "pool", "fee collector"][i], e[i]);
    }
    let (rt, rate, tok, pay, pa) = (rent_token(&v), v.n.rate, v.n.token, v.n.payer, ata(&v.n.payer, v.n.token));
    vacc(&mut v, |x| {
        let o = x.get_other_data();
        ck!(
            o.fee_payer.skip_mr() == pay.to_bytes() && o.fee_payer_account.skip_mr() == pa.to_bytes() && o.recipient_wallet.clone().option().is_none() && !o.skip_nullifier_pda && o.min_batching_rate == rate && o.token_id == tok && o.subvention == s && o.network_fee == nw && o.commitment_hash_fee.0 == hl && o.commitment_hash_fee_token == h && o.proof_verification_fee == p && o.associated_token_account_rent == rt,
            "record",
            "recorded subvention {} network {} hashing {}/{} proof {} rent {} rate {}; expected {s} {nw} {hl}/{h} {p} {rt} {rate}",
            o.subvention, o.network_fee, o.commitment_hash_fee.0, o.commitment_hash_fee_token, o.proof_verification_fee, o.associated_token_account_rent, o.min_batching_rate
        );
        ck!(x.get_state() == VerificationState::FeeTransferred, "stage", "state {:?}", x.get_state());
        Ok(())
    })?;
    for (k, x) in &before.accs {
        if *k != v.acc && !keys.contains(k) && !keys.iter().any(|y| ata(y, v.n.token) == *k) {
            ck!(v.n.w.accs[k] == *x, "other-account", "the account {k} changes");
        }
    }
    t.mark();
    Ok(())
}
fn v04_refused(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vnet(r);
    if !affordable(&v) {
        return Ok(());
    }
    let kind = r.below(8);
    if kind == 0 {
        v.req.join_split.fee_version = v.n.version + 1 - 2 * (v.n.version > 0 && r.chance(1, 2)) as u32;
        refee(&mut v);
    }
    if kind == 1 {
        // a token account for lamports
        if v.n.token > 0 {
            return Ok(());
        }
        v.req.recipient_is_associated_token_account = true;
        refee(&mut v);
    }
    if kind == 7 {
        // rent and optional fee beyond 64 bits, with a subvention that covers the whole fee
        if v.n.token == 0 {
            return Ok(());
        }
        v.req.recipient_is_associated_token_account = true;
        let rt = rent_token(&v);
        v.n.fee.proof_network_fee = elusiv::state::fee::BasisPointFee(0);
        v.req.join_split.fee = 0;
        v.req.join_split.amount = u64::MAX - r.below(rt);
        for _ in 0..8 {
            let txs = o_schedule(&o_signals(&v.req)).len() as u64;
            let l = (txs + v.n.fee.proof_base_tx_count) * v.n.fee.lamports_per_tx.0 + v.n.fee.warden_proof_reward.0 + o_commit(&v.n.fee, v.n.rate as usize) as u64;
            v.n.fee.proof_subvention.0 = l;
            for _ in 0..50 {
                match o_total(&v) {
                    None => v.n.fee.proof_subvention.0 -= l / 100,
                    Some(f) => {
                        v.req.join_split.fee = f;
                        break;
                    }
                }
            }
            v.req.join_split.amount = (u64::MAX - v.req.join_split.fee).min(v.req.join_split.amount);
            v.req.join_split.optional_fee.amount = v.req.join_split.amount;
            v.req.hashed_inputs = o_hash_inputs(&v);
        }
        let f = v.n.fee.clone();
        if o_total(&v).map(|x| x > v.req.join_split.fee).unwrap_or(true) || v.req.join_split.amount as u128 + rt as u128 <= u64::MAX as u128 {
            return Ok(());
        }
        edit::<GovernorAccount>(&mut v.n.w, None, |d| acct!(d, GovernorAccount).set_program_fee(&f));
    }
    let i = init_ix(&v);
    must(run(&mut v.n.w, &[i], 0), "init-refused")?;
    let mut i = fee_ix(&v);
    let o = r.key();
    let m = TOKENS[v.n.token as usize].mint;
    let name = match kind {
        0 => "another fee version",
        1 => "a token account for lamports",
        2 => {
            // the pool's account is someone else's
            let k = if v.n.token == 0 { v.n.payer } else { r.key() };
            if v.n.token > 0 {
                v.n.w.put(k, rent(165), token_account_data(&m, &o, 5), spl_token::ID);
            } else {
                return Ok(());
            }
            i.accounts[3].pubkey = k;
            "a foreign pool account"
        }
        3 => {
            if v.n.token == 0 {
                return Ok(());
            }
            let k = r.key();
            v.n.w.put(k, rent(165), token_account_data(&m, &v.n.collector, 1 << 50), spl_token::ID);
            i.accounts[5].pubkey = k;
            "a foreign fee collector account"
        }
        4 => {
            if v.n.token == 0 {
                return Ok(());
            }
            let k = r.key();
            // not an account of that token
            let other = TOKENS[if v.n.token == 1 { 2 } else { 1 }].mint;
            v.n.w.put(k, rent(165), token_account_data(&other, &v.n.payer, 0), spl_token::ID);
            i.accounts[1].pubkey = k;
            "an account of another token for the fee payer"
        }
        5 => {
            if v.n.token == 0 {
                return Ok(());
            }
            i.accounts[7].pubkey = TOKENS[if v.n.token == 1 { 2 } else { 1 }].pyth_usd_price_key;
            v.n.w.put(i.accounts[7].pubkey, 1, pyth(100_000_000, -8, true), o);
            "the price of another token"
        }
        7 => "an amount below account rent and optional fee",
        _ => {
            v.n.w.put(TOKENS[0].pyth_usd_price_key, 1, pyth(v.n.prices.0, -8, false), o);
            if v.n.token == 0 {
                return Ok(());
            }
            "a price that is not trading"
        }
    };
    say!(t, "{name}: {}", describe(&v));
    let g = run(&mut v.n.w, &[i], 0);
    ck!(g.is_err(), &format!("accepted: {name}"), "the fee transfer succeeds with {name}");
    t.mark();
    Ok(())
}

// ---------------------------------------------------------------- V05
fn v05(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    if r.chance(1, 3) {
        // around the end of the tree
        let p = (1 << 20) - r.below(4) as u32;
        edit::<StorageAccount>(&mut v.n.w, None, |d| StorageAccount::new_with_child_accounts(d, vec![None; 25]).unwrap().set_next_commitment_ptr(&p));
        v.ptr = p;
        v.req.join_split.recent_commitment_index = p;
        refee(&mut v);
        if !affordable(&v) {
            return Ok(());
        }
    }
    drive(&mut v, 3, true)?;
    for _ in 0..r.below(6) {
        edit::<CommitmentQueueAccount>(&mut v.n.w, None, |d| CommitmentQueue::new(&mut acct!(d, CommitmentQueueAccount)).enqueue(CommitmentHashRequest::default()).unwrap());
    }
    let mut data = send_data(&v);
    let good = data.clone();
    let want = v.recipient;
    let kind = r.below(24);
    let mut ok = false;
    let mut name = "nothing";
    let mut u = v.clone();
    let flip = |r: &mut Rng, k: &mut Pubkey| {
        let mut b = k.to_bytes();
        b[r.below(32) as usize] ^= 1 << r.below(8);
        *k = Pubkey::new_from_array(b)
    };
    match kind {
        0 => {
            name = "recipient";
            flip(r, &mut u.recipient)
        }
        1 => {
            name = "identifier";
            flip(r, &mut u.ident)
        }
        2 => {
            name = "reference";
            u.reference = if u.reference == IXS { r.key() } else if r.chance(1, 2) { IXS } else { r.key() }
        }
        3 => {
            name = "encryption nonce";
            data.iv[r.below(32) as usize] ^= 1 << r.below(8);
        }
        4 => {
            name = "encrypted owner";
            data.encrypted_owner[r.below(32) as usize] ^= 1 << r.below(8);
        }
        5 => {
            name = "total amount";
            data.total_amount = if r.chance(1, 2) { v.req.join_split.amount } else { data.total_amount.wrapping_add(1) };
            ok = data.total_amount == good.total_amount;
        }
        6 => {
            name = "token";
            data.token_id ^= 1 + r.below(3) as u16;
        }
        7 => {
            name = "commitment index ahead";
            data.commitment_index += 1 + r.below(2) as u32;
        }
        8 => {
            name = "tree index";
            data.mt_index = if r.chance(1, 2) { data.mt_index + 1 } else { data.mt_index.wrapping_sub(1) };
        }
        9 => {
            name = "older commitment index";
            data.commitment_index = r.below(data.commitment_index as u64 + 1) as u32;
            ok = true;
        }
        10 => {
            name = "memo";
            u.memo = match &u.memo {
                Some(m) if m.is_empty() => Some(vec![1]),
                Some(m) if r.chance(1, 2) => {
                    let mut m = m.clone();
                    m.pop();
                    Some(m)
                }
                Some(_) => None,
                None => Some(vec![r.below(256) as u8]),
            };
        }
        11 => {
            name = "recipient and identifier exchanged";
            std::mem::swap(&mut u.recipient, &mut u.ident)
        }
        12 => {
            name = "stored account kind";
            vacc_req(&mut u, |q| q.recipient_is_associated_token_account ^= true);
        }
        13 => {
            name = "stored metadata";
            vacc_req(&mut u, |q| q.join_split.metadata[r.below(17) as usize] ^= 1 << r.below(8));
        }
        14 => {
            name = "stored optional fee";
            vacc_req(&mut u, |q| q.join_split.optional_fee.amount ^= 1 << r.below(20));
        }
        15 => {
            name = "stored optional collector";
            vacc_req(&mut u, |q| flip(r, &mut q.join_split.optional_fee.collector));
        }
        _ => ok = true,
    }
    let old_empty = v.memo.as_ref().map(|m| m.is_empty()).unwrap_or(true);
    let new_empty = u.memo.as_ref().map(|m| m.is_empty()).unwrap_or(true);
    if name == "memo" && old_empty && new_empty {
        ok = true
    }
    say!(t, "{} position {}/{}; changed: {name}", describe(&v), good.mt_index, good.commitment_index);
    // accounts may have been replaced
    let rt = rent_token(&v);
    let mut tx = final_tx(&v, data.clone(), rt);
    tx[0] = send_ix(&u, data);
    if u.memo != v.memo {
        tx.retain(|i| i.program_id != memo_id());
        if let Some(m) = &u.memo {
            let at = if v.req.solana_pay_transfer { tx.len() - 1 } else { tx.len() };
            tx.insert(at, memo_ix(m));
        }
    }
    v.n.w = u.n.w;
    let qb = v.n.w.data(&CommitmentQueueAccount::find(None).0);
    let g = run(&mut v.n.w, &tx, 0);
    if ok {
        ck!(g.is_ok(), "refused", "a matching send is refused ({name}): {g:?}");
        ck!(v.n.w.data(&CommitmentQueueAccount::find(None).0) == qb, "queue", "the commitment queue changes");
        vacc(&mut v, |a| {
            let o = a.get_other_data();
            ck!(o.recipient_wallet.option().map(|x| x.skip_mr()) == Some(want.to_bytes()), "recipient", "another recipient is recorded");
            ck!(a.get_state() == VerificationState::InsertNullifiers, "stage", "state {:?}", a.get_state());
            Ok(())
        })?;
    } else {
        ck!(g.is_err(), &format!("accepted: {name}"), "the send is finalized although {name} differs from the proof");
    }
    t.mark();
    Ok(())
}
fn vacc_req(v: &mut V, f: impl FnOnce(&mut SendPublicInputs)) {
    let mut q = v.req.clone();
    f(&mut q);
    vacc(v, |a| a.set_request(&ProofRequest::Send(q)));
}

// ---------------------------------------------------------------- V06
/// a later input lies in another tree: its nullifier hash does not end up in the first tree's account
fn v06_trees(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    let k = v.req.join_split.input_commitments.len();
    if k < 2 {
        return Ok(());
    }
    drive(&mut v, 3, true)?;
    let rt = rent_token(&v);
    let tx = final_tx(&v, send_data(&v), rt);
    must(run(&mut v.n.w, &tx, 0), "send-refused")?;
    let s = r.range(1, k as u64 - 1) as usize;
    let root = RawU256::new(r.scalar());
    vacc_req(&mut v, |q| q.join_split.input_commitments[s].root = Some(root));
    let h = v.req.join_split.input_commitments[s].nullifier_hash.reduce();
    say!(t, "input {s} of {k} in the second tree: {}", describe(&v));
    for step in 0..k + 4 {
        let i = insert_ix(&v);
        let _ = run(&mut v.n.w, &[i], 0);
        let can = with_null(&mut v.n.w, v.ti[0], |a| guarded(|| a.can_insert_nullifier_hash(h)));
        ck!(matches!(can, Ok(Ok(true))), "wrong-tree", "after step {step} the nullifier hash of input {s}, which lies in the second tree, is in the first tree's account");
    }
    let st = vacc(&mut v, |a| a.get_state());
    ck!(st != VerificationState::Finalized, "finalized", "the verification is finalized although input {s} is not spent in its tree");
    t.mark();
    Ok(())
}
fn v06(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    // sometimes the first child account is full, so that values are displaced
    let full = r.chance(1, 3);
    if full {
        p_null_full(&mut v, r);
    }
    // two trees cannot be finalized by this version
    drive(&mut v, 3, true)?;
    let k = v.req.join_split.input_commitments.len();
    let rt = rent_token(&v);
    let tx = final_tx(&v, send_data(&v), rt);
    must(run(&mut v.n.w, &tx, 0), "send-refused")?;
    say!(t, "full child {full}: {}", describe(&v));
    let hashes: Vec<U256> = v.req.join_split.input_commitments.iter().map(|c| c.nullifier_hash.reduce()).collect();
    // one of them gets spent by another verification in between
    let stolen = if r.chance(1, 4) { Some(r.below(k as u64) as usize) } else { None };
    if let Some(s) = stolen {
        with_null(&mut v.n.w, v.ti[0], |a| a.try_insert_nullifier_hash(hashes[s]).unwrap());
        // leave nothing to be moved
        for _ in 0..20 {
            if with_null(&mut v.n.w, v.ti[0], |a| a.is_moved_nullifier_empty()) {
                break;
            }
            with_null(&mut v.n.w, v.ti[0], |a| a.move_nullifier_hashes_to_next_account().unwrap());
        }
    }
    let c0 = with_null(&mut v.n.w, v.ti[0], |a| a.get_nullifier_hash_count());
    let mut inserted = 0;
    for step in 0..k + 6 {
        let st = vacc(&mut v, |a| a.get_state());
        let empty = with_null(&mut v.n.w, v.ti[0], |a| a.is_moved_nullifier_empty());
        let fin = inserted == k && empty;
        ck!((st == VerificationState::Finalized) == fin, "finalized", "after {step} steps ({inserted} of {k} nullifier hashes inserted, none to be moved {empty}) the state is {st:?}");
        // the payout is possible exactly then
        if r.chance(1, 3) {
            let mut c = v.clone();
            let g = run(&mut c.n.w, &tx, 1 + k);
            ck!(fin || g.is_err(), "paid-early", "the payout succeeds with {inserted} of {k} nullifier hashes inserted");
        }
        if fin {
            break;
        }
        let expect_fail = inserted < k && stolen == Some(inserted);
        let i = insert_ix(&v);
        let before = v.n.w.clone();
        let g = run(&mut v.n.w, &[i], 0);
        if expect_fail {
            ck!(g.is_err(), "double-spend", "an already spent nullifier hash is inserted");
            ck!(v.n.w.accs[&v.acc] == before.accs[&v.acc], "advanced", "a failed insertion advances the verification");
            t.mark();
            return Ok(());
        }
        ck!(g.is_ok(), "insert-refused", "insertion {step} is refused: {g:?}");
        if inserted < k {
            inserted += 1;
            let c = with_null(&mut v.n.w, v.ti[0], |a| a.get_nullifier_hash_count());
            ck!(c == c0 + inserted as u32, "count", "{} nullifier hashes are counted after {inserted} insertions", c - c0);
        }
        for (j, h) in hashes.iter().enumerate() {
            let can = with_null(&mut v.n.w, v.ti[0], |a| guarded(|| a.can_insert_nullifier_hash(*h)));
            let spent = j < inserted || stolen == Some(j);
            ck!(matches!(can, Ok(Ok(x)) if x != spent), "spent", "after {inserted} insertions nullifier hash {j} can be inserted: {can:?}");
        }
    }
    let st = vacc(&mut v, |a| a.get_state());
    ck!(st == VerificationState::Finalized, "never-finalized", "after all insertions the state is {st:?}");
    t.mark();
    Ok(())
}
/// runs `f` on a nullifier account of the world with all its child accounts
pub fn with_null<T>(wd: &mut World, tree: u32, f: impl FnOnce(&mut NullifierAccount) -> T) -> T {
    let k = NullifierAccount::find(Some(tree)).0;
    let mut d = wd.data(&k);
    let ks: Vec<Option<Pubkey>> = {
        let a = <NullifierAccount as ProgramAccount>::new(&mut d).unwrap();
        (0..16).map(|i| a.get_child_pubkey(i)).collect()
    };
    let mut kids: Vec<Child> = ks.iter().map(|k| Child { key: k.unwrap_or_default(), owner: elusiv::id(), lamports: 1, data: k.map(|k| std::mem::take(&mut wd.accs.get_mut(&k).unwrap().data)).unwrap_or(vec![1]) }).collect();
    let x = {
        let infos: Vec<_> = kids.iter_mut().map(|k| k.info()).collect();
        let refs: Vec<_> = infos.iter().zip(&ks).map(|(i, k)| k.map(|_| i)).collect();
        let mut a = NullifierAccount::new_with_child_accounts(&mut d, refs).unwrap();
        f(&mut a)
    };
    for (k, c) in ks.iter().zip(kids) {
        if let Some(k) = k {
            wd.accs.get_mut(k).unwrap().data = c.data
        }
    }
    wd.accs.get_mut(&k).unwrap().data = d;
    x
}
/// a full child account (values spread evenly over the scalars) with the largest value
pub fn full_child() -> &'static (Vec<u8>, U256) {
    static F: std::sync::OnceLock<(Vec<u8>, U256)> = std::sync::OnceLock::new();
    F.get_or_init(|| make_full(0))
}
pub fn make_full(top: u8) -> (Vec<u8>, U256) {
    let mut d = vec![0u8; NCHILD];
    d[0] = 1;
    let mut m = NullifierMap::new(&mut d[1..]);
    let mut last = [0; 32];
    for i in 0..65536u32 {
        let mut x = [0x55u8; 32];
        // ascending, up to about half of the modulus
        let hi = 0x18_0000_0000u64 / 65536 * i as u64;
        x[27..32].copy_from_slice(&hi.to_le_bytes()[..5]);
        x[26] = 1;
        x[31] += top;
        m.try_insert_default(OrdU256(x)).ok().unwrap();
        last = x;
    }
    drop(m);
    (d, last)
}
fn p_null_full(v: &mut V, r: &mut Rng) {
    let k = NullifierAccount::find(Some(v.ti[0])).0;
    let (c, max) = full_child();
    let c0 = child_of(&v.n.w, v.ti[0]).unwrap();
    v.n.w.accs.get_mut(&c0).unwrap().data = c.clone();
    let c1 = r.key();
    let mut cd = vec![0u8; NCHILD];
    cd[0] = 1;
    v.n.w.put(c1, 1 << 40, cd, elusiv::id());
    let d = &mut v.n.w.accs.get_mut(&k).unwrap().data;
    let mut a = <NullifierAccount as ProgramAccount>::new(d).unwrap();
    a.set_child_pubkey(1, ElusivOption::Some(c1));
    a.set_nullifier_hash_count(&65536);
    a.set_max_values(0, &ElusivOption::Some(*max));
}

// ---------------------------------------------------------------- payouts
type Bal = BTreeMap<Pubkey, i128>;
/// lamports of wallets and tokens of token accounts
fn snapshot(w_: &World) -> (Bal, Bal) {
    let mut l = Bal::new();
    let mut k = Bal::new();
    for (a, x) in &w_.accs {
        l.insert(*a, x.lamports as i128);
        if x.owner == spl_token::ID && x.data.len() == 165 {
            k.insert(*a, w_.token_amount(a) as i128);
        }
    }
    (l, k)
}
fn diff(a: &Bal, b: &Bal) -> Bal {
    let mut m = Bal::new();
    for k in a.keys().chain(b.keys()) {
        let d = b.get(k).unwrap_or(&0) - a.get(k).unwrap_or(&0);
        if d != 0 {
            m.insert(*k, d);
        }
    }
    m
}
fn add(m: &mut Bal, k: Pubkey, x: i128) {
    let e = m.entry(k).or_default();
    *e += x;
    if *e == 0 {
        m.remove(&k);
    }
}
fn closed(v: &V, payee: Pubkey, e: &mut Bal, w0: &World) {
    let (a, d) = (w0.lamports(&v.acc) as i128, w0.lamports(&dup(v)) as i128);
    add(e, v.acc, -a);
    add(e, payee, a);
    if !v.skip {
        add(e, dup(v), -d);
        add(e, payee, d);
    }
}
fn names(v: &V, k: &Pubkey) -> String {
    for (n, x) in [("payer", v.n.payer), ("pool", v.n.pool), ("fee collector", v.n.collector), ("recipient", v.recipient), ("verification", v.acc), ("guard", dup(v)), ("optional collector", v.req.join_split.optional_fee.collector)] {
        if x == *k {
            return n.into();
        }
        if ata(&x, v.n.token) == *k {
            return format!("{n}'s token account");
        }
    }
    k.to_string()
}
fn show(v: &V, b: &Bal) -> String {
    b.iter().map(|(k, x)| format!("{} {x:+}", names(v, k))).collect::<Vec<_>>().join(", ")
}
fn queued(v: &V) -> Vec<(CommitmentHashRequest, CommitmentMetadata)> {
    let mut d = v.n.w.data(&CommitmentQueueAccount::find(None).0);
    let mut m = v.n.w.data(&MetadataQueueAccount::find(None).0);
    let mut q = acct!(d, CommitmentQueueAccount);
    let mut mq = acct!(m, MetadataQueueAccount);
    let (q, mq) = (CommitmentQueue::new(&mut q), MetadataQueue::new(&mut mq));
    (0..q.len() as usize).map(|i| (q.view(i).unwrap(), if i < mq.len() as usize { mq.view(i).unwrap() } else { [0xee; 17] })).collect()
}
fn maybe_skip(v: &mut V, r: &mut Rng) -> R {
    // the guard account already exists, opened for another verification of the same hashes
    if r.chance(1, 5) {
        let mut u = v.clone();
        u.i = (v.i + 1) % 129;
        u.acc = VerificationAccount::find_with_pubkey(u.n.payer, Some(u.i as u32)).0;
        u.req.join_split.output_commitment = RawU256::new(r.scalar());
        let i = init_ix(&u);
        must(run(&mut v.n.w, &[i], 0), "init-refused")?;
        v.skip = true;
    }
    Ok(())
}
fn v07(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    maybe_skip(&mut v, r)?;
    drive(&mut v, 3, false)?;
    say!(t, "skip {} {}", v.skip, describe(&v));
    let rt = rent_token(&v);
    let tx = final_tx(&v, send_data(&v), rt);
    let k = v.req.join_split.input_commitments.len();
    let w0 = v.n.w.clone();
    let out = v.req.join_split.output_commitment.reduce();
    must(run(&mut v.n.w, &tx, 0), "send-refused")?;
    let st = vacc(&mut v, |a| a.get_state());
    ck!(st == VerificationState::Finalized, "stage", "a rejected verification is in state {st:?} after its send is finalized");
    let mut bd = v.n.w.data(&CommitmentBufferAccount::find(None).0);
    ck!(acct!(bd, CommitmentBufferAccount).find_position(&out).is_none(), "not-released", "the output commitment is not released");
    let g = run(&mut v.n.w, &tx, 1);
    ck!(g.is_err(), "inserted", "a nullifier hash of a rejected verification is inserted");
    let (l0, k0) = snapshot(&w0);
    must(run(&mut v.n.w, &tx, 1 + k), "payout-refused")?;
    let (l1, k1) = snapshot(&v.n.w);
    let (mut el, mut ek) = (Bal::new(), Bal::new());
    closed(&v, v.n.collector, &mut el, &w0);
    let (hl, _, _, _, s) = o_fee(&v);
    // the prepaid fees
    let rl = if v.req.recipient_is_associated_token_account { rent(165) } else { 0 } as i128;
    add(&mut el, v.n.pool, -(hl as i128) - rl);
    add(&mut el, v.n.collector, hl as i128 + rl);
    let (sm, a, b) = if v.n.token == 0 { (&mut el, v.n.pool, v.n.collector) } else { (&mut ek, ata(&v.n.pool, v.n.token), ata(&v.n.collector, v.n.token)) };
    add(sm, a, -(s as i128));
    add(sm, b, s as i128);
    let mut dl = diff(&l0, &l1);
    dl.remove(&IXS);
    ck!(dl == el, "lamports", "lamports move: {}; expected: {}", show(&v, &dl), show(&v, &el));
    let dk = diff(&k0, &k1);
    ck!(dk == ek, "tokens", "tokens move: {}; expected: {}", show(&v, &dk), show(&v, &ek));
    ck!(queued(&v).is_empty(), "queued", "a commitment is queued");
    t.mark();
    Ok(())
}
fn v08(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    while v.n.token != 0 {
        v = vready(r)
    }
    payout(v, r, t)
}
fn v09(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    while v.n.token == 0 {
        v = vready(r)
    }
    payout(v, r, t)
}
fn payout(mut v: V, r: &mut Rng, t: &mut Tr) -> R {
    maybe_skip(&mut v, r)?;
    let tok = v.n.token;
    let j = v.req.join_split.clone();
    // the pool holds more than this verification needs
    drive(&mut v, 3, true)?;
    // the state of the recipient's account at the payout
    let mut exists = true;
    let mut usable = true;
    if tok > 0 {
        let m = TOKENS[tok as usize].mint;
        if v.req.recipient_is_associated_token_account {
            exists = r.chance(1, 2);
            if exists {
                let k = rec_account(&v);
                v.n.w.put(k, rent(165), token_account_data(&m, &v.recipient, 11), spl_token::ID);
            }
        } else if r.chance(1, 4) {
            usable = false;
            let o = r.key();
            let other = TOKENS[if tok == 1 { 2 } else { 1 }].mint;
            let k = v.recipient;
            match r.below(3) {
                0 => v.n.w.put(k, rent(165), token_account_data(&other, &o, 11), spl_token::ID),
                1 => v.n.w.sys(k, 5_000_000),
                _ => v.n.w.put(k, rent(165), vec![0; 165], spl_token::ID),
            }
        }
    }
    let rt = if exists { 0 } else { rent_token(&v) };
    let mut tx = final_tx(&v, send_data(&v), rt);
    if v.req.solana_pay_transfer && !usable {
        let n = tx.len() - 1;
        tx[n] = spl_token::instruction::transfer(&spl_token::ID, &ata(&v.n.payer, tok), &ata(&v.n.collector, tok), &v.n.payer, &[&v.n.payer], net_amount(&v, rt)).unwrap();
    }
    let k = j.input_commitments.len();
    say!(t, "skip {} recipient account exists {exists} usable {usable}: {}", v.skip, describe(&v));
    drive_final(&mut v, &tx, k)?;
    // deviations that must be refused
    let dev = r.below(10);
    let w1 = v.n.w.clone();
    let at = 1 + k;
    let refuse = match dev {
        0 if j.amount > 0 => {
            let k = r.key();
            v.n.w.sys(k, 1 << 30);
            if tok == 0 {
                tx[at].accounts[1].pubkey = k;
            } else if v.req.recipient_is_associated_token_account {
                tx[at].accounts[2].pubkey = ata(&k, tok);
                tx[at].accounts[3].pubkey = k;
            } else {
                let m = TOKENS[tok as usize].mint;
                v.n.w.put(k, rent(165), token_account_data(&m, &k, 11), spl_token::ID);
                tx[at].accounts[2].pubkey = k;
            }
            Some("another recipient")
        }
        1 if j.optional_fee.amount > 0 => {
            let k = r.key();
            let m = TOKENS[tok as usize].mint;
            if tok == 0 {
                v.n.w.sys(k, 1 << 30)
            } else {
                v.n.w.put(k, rent(165), token_account_data(&m, &k, 11), spl_token::ID)
            }
            tx[at].accounts[if tok == 0 { 4 } else { 8 }].pubkey = k;
            Some("another optional fee collector")
        }
        2 => {
            let d = &mut tx[at].accounts[if tok == 0 { 8 } else { 12 }];
            let k = r.key();
            d.pubkey = k;
            v.n.w.put(k, 1 << 30, vec![254, 0], elusiv::id());
            Some("another guard account")
        }
        3 if tok > 0 => {
            let k = r.key();
            let m = TOKENS[tok as usize].mint;
            let (i, o) = match r.below(3) {
                0 => (1, v.n.payer),
                1 => (5, v.n.pool),
                _ => (7, v.n.collector),
            };
            v.n.w.put(k, rent(165), token_account_data(&m, &o, 1 << 40), spl_token::ID);
            tx[at].accounts[i].pubkey = k;
            Some("another token account of payer, pool or fee collector")
        }
        4 if tok > 0 && v.req.recipient_is_associated_token_account && j.amount > 0 => {
            // a different token account of the right wallet
            let k = r.key();
            let m = TOKENS[tok as usize].mint;
            v.n.w.put(k, rent(165), token_account_data(&m, &v.recipient, 0), spl_token::ID);
            tx[at].accounts[2].pubkey = k;
            Some("an account that is not the associated one")
        }
        5 if v.req.solana_pay_transfer && j.amount > 0 => {
            let n = tx.len() - 1;
            match r.below(3) {
                0 => {
                    let d = &mut tx[n].data;
                    let l = d.len() - 1 - r.below(8) as usize;
                    d[l] ^= 1;
                }
                1 => tx[n].accounts[1].pubkey = r.key(),
                _ => {
                    tx.pop();
                }
            }
            Some("another forwarded payment")
        }
        _ => None,
    };
    let (l0, k0) = snapshot(&v.n.w);
    let g = run(&mut v.n.w, &tx, at);
    if let Some(x) = refuse {
        say!(t, "with {x}");
        ck!(g.is_err(), &format!("accepted: {x}"), "the payout succeeds with {x}");
        t.mark();
        return Ok(());
    }
    ck!(g.is_ok(), "payout-refused", "the payout is refused: {g:?}");
    let (l1, k1) = snapshot(&v.n.w);
    let (_, h, p, nw, _) = o_fee(&v);
    let (mut el, mut ek) = (Bal::new(), Bal::new());
    closed(&v, v.n.payer, &mut el, &w1);
    let (amt, opt) = (j.amount as i128, j.optional_fee.amount as i128);
    let (rti, opt) = if amt > 0 { (rt as i128, opt) } else { (0, 0) };
    let (pool, payer, coll, opc, rec) = if tok == 0 {
        (v.n.pool, v.n.payer, v.n.collector, j.optional_fee.collector, v.recipient)
    } else {
        (ata(&v.n.pool, tok), ata(&v.n.payer, tok), ata(&v.n.collector, tok), j.optional_fee.collector, if usable { rec_account(&v) } else { ata(&v.n.collector, tok) })
    };
    {
        let e = if tok == 0 { &mut el } else { &mut ek };
        add(e, pool, -(amt + (h + p + nw) as i128));
        add(e, if v.req.solana_pay_transfer { payer } else { rec }, amt - opt - rti);
        add(e, opc, opt);
        add(e, payer, (h + p) as i128 + rti);
        add(e, coll, nw as i128);
    }
    if v.req.recipient_is_associated_token_account && amt > 0 {
        // the prepaid rent returns, the payer created the account if it did not exist
        let rl = rent(165) as i128;
        add(&mut el, v.n.pool, -rl);
        add(&mut el, v.n.payer, rl);
        if !exists {
            add(&mut el, v.n.payer, -rl);
            add(&mut el, rec_account(&v), rl);
        }
    }
    let mut dl = diff(&l0, &l1);
    dl.remove(&IXS);
    ck!(dl == el, "lamports", "lamports move: {}; expected: {}", show(&v, &dl), show(&v, &el));
    let dk = diff(&k0, &k1);
    ck!(dk == ek, "tokens", "tokens move: {}; expected: {}", show(&v, &dk), show(&v, &ek));
    let q = queued(&v);
    ck!(
        q.len() == 1 && q[0].0.commitment == j.output_commitment.reduce() && q[0].0.fee_version == j.fee_version && q[0].0.min_batching_rate == v.n.rate && q[0].1 == j.metadata,
        "queued",
        "{} commitments are queued, expected the output commitment with its metadata, version and rate",
        q.len()
    );
    // not twice
    let g = run(&mut v.n.w, &tx, at);
    ck!(g.is_err(), "paid-twice", "a second payout succeeds");
    t.mark();
    Ok(())
}

// ---------------------------------------------------------------- V10
fn v10(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    v.memo = None;
    v.req.solana_pay_transfer = false;
    refee(&mut v);
    if !affordable(&v) {
        return Ok(());
    }
    drive(&mut v, 3, true)?;
    let data = send_data(&v);
    let other = {
        // another verification of the same payer
        let mut u = v.clone();
        u.i = (v.i + 1) % 129;
        u
    };
    let pre: Vec<Instruction> = (0..r.below(3)).map(|_| memo_ix(&[1])).collect();
    let inserts = r.below(6) as usize;
    let mut tx = pre.clone();
    tx.push(send_ix(&v, data));
    for _ in 0..inserts {
        tx.push(insert_ix(&v));
    }
    tx.push(pay_ix(&v));
    for _ in 0..r.below(2) {
        tx.push(memo_ix(&[2]));
    }
    let (s, p) = (pre.len(), pre.len() + 1 + inserts);
    let kind = r.below(12);
    let mut ok = false;
    let name = match kind {
        0 => {
            tx.remove(p);
            "no payout"
        }
        1 => {
            tx.truncate(p);
            "no payout at the end"
        }
        2 => {
            tx[p].program_id = r.key();
            "a payout of another program"
        }
        3 => {
            tx[p].data[1] = other.i;
            "the payout of another verification"
        }
        4 => {
            // the payout of the other currency
            let a = if v.n.token == 0 {
                ElusivInstruction::FinalizeVerificationTransferToken { verification_account_index: v.i }
            } else {
                ElusivInstruction::FinalizeVerificationTransferLamports { verification_account_index: v.i }
            };
            tx[p].data = a.try_to_vec().unwrap();
            "a payout of the other kind"
        }
        5 => {
            tx.insert(p, memo_ix(&[3]));
            "an instruction between"
        }
        6 if inserts > 0 => {
            let k = s + 1 + r.below(inserts as u64) as usize;
            if r.chance(1, 2) {
                tx[k].data[1] = other.i;
            } else {
                tx[k].program_id = r.key();
            }
            "an insertion for another verification or program"
        }
        7 => {
            tx.swap(s, p);
            "the payout before"
        }
        8 => {
            // the payout belongs to a verification of another payer with the same index
            let k = r.key();
            let b = VerificationAccount::find_with_pubkey(k, Some(v.i as u32)).0;
            for m in tx[p].accounts.iter_mut() {
                if m.pubkey == v.n.payer {
                    m.pubkey = k
                }
                if m.pubkey == v.acc {
                    m.pubkey = b
                }
            }
            "the payout of another payer's verification"
        }
        _ => {
            ok = true;
            "nothing wrong"
        }
    };
    say!(t, "{} instructions before, {inserts} insertions, {name}: {}", pre.len(), describe(&v));
    let at = if kind == 7 { p } else { s };
    let g = run(&mut v.n.w, &tx, at);
    if ok {
        ck!(g.is_ok(), "refused", "a correct transaction is refused: {g:?}");
    } else {
        ck!(g.is_err(), &format!("accepted: {name}"), "a send is finalized with {name} in the transaction");
    }
    t.mark();
    Ok(())
}
/// forwarded payments and memos at their places
fn v10_attached(r: &mut Rng, t: &mut Tr) -> R {
    let mut v = vready(r);
    if v.req.join_split.amount == 0 {
        return Ok(());
    }
    let memo = r.chance(2, 3);
    v.memo = if memo { Some(vec![5; r.range(1, 9) as usize]) } else { None };
    v.req.solana_pay_transfer = !memo || r.chance(1, 2);
    refee(&mut v);
    if !affordable(&v) {
        return Ok(());
    }
    drive(&mut v, 3, true)?;
    let created = v.n.token > 0 && v.req.recipient_is_associated_token_account;
    let rt = if created { rent_token(&v) } else { 0 };
    let k = v.req.join_split.input_commitments.len();
    let mut tx = final_tx(&v, send_data(&v), rt);
    let n = tx.len() - 1;
    let kind = r.below(8);
    let mut ok = false;
    let pay = v.req.solana_pay_transfer;
    let mi = if pay { n.wrapping_sub(1) } else { n };
    let name = match kind {
        0 if memo => {
            tx.remove(mi);
            "without memo"
        }
        1 if memo => {
            tx[mi].program_id = r.key();
            "memo of another program"
        }
        2 if memo => {
            tx[mi].data[0] ^= 1;
            "another memo"
        }
        3 if memo => {
            tx.push(memo_ix(&[9, 9]));
            "something after the memo or payment"
        }
        4 if pay => {
            tx.pop();
            "without forwarded payment"
        }
        5 if pay => {
            let l = tx[n].data.len();
            tx[n].data[l - 8] ^= 1;
            "another forwarded amount"
        }
        6 if pay => {
            let i = r.below(2) as usize;
            tx[n].accounts[i].pubkey = r.key();
            "another forwarded source or destination"
        }
        _ => {
            ok = true;
            "as required"
        }
    };
    say!(t, "{name}: {}", describe(&v));
    let g = (|| {
        run(&mut v.n.w, &tx, 0)?;
        for j in 0..k {
            run(&mut v.n.w, &tx, 1 + j)?;
        }
        run(&mut v.n.w, &tx, 1 + k)
    })();
    if ok {
        ck!(g.is_ok(), "refused", "a correct transaction is refused: {g:?}");
    } else {
        ck!(g.is_err(), &format!("accepted: {name}"), "the transaction succeeds {name}");
    }
    t.mark();
    Ok(())
}

// ---------------------------------------------------------------- V11, V13
fn v11(r: &mut Rng, t: &mut Tr) -> R {
    let mut q = any_send(r);
    let g = guarded(|| q.public_signals());
    let s: Vec<U256> = match g {
        Ok(s) => s.iter().map(|x| x.skip_mr()).collect(),
        Err(e) => {
            ck!(false, "abort", "{e}");
            return Ok(());
        }
    };
    let e = o_signals(&q);
    say!(t, "amount {} fee {} inputs {}", q.join_split.amount, q.join_split.fee, q.join_split.input_commitments.len());
    ck!(s == e, "order", "the signals {:?} differ from the expected ones", (0..14.min(s.len())).filter(|i| s[*i] != e[*i]).collect::<Vec<_>>());
    // one constrained value changes
    let p = q.clone();
    let n = q.join_split.input_commitments.len();
    match r.below(8) {
        0 => q.join_split.input_commitments[r.below(n as u64) as usize].nullifier_hash = RawU256::new(r.scalar()),
        1 => q.join_split.input_commitments[r.below(n as u64) as usize].root = Some(RawU256::new(r.scalar())),
        2 => q.join_split.output_commitment = RawU256::new(r.scalar()),
        3 => q.join_split.recent_commitment_index ^= 1 << r.below(32),
        4 => q.join_split.fee_version ^= 1 << r.below(32),
        5 => q.join_split.token_id ^= 1 << r.below(16),
        6 => q.hashed_inputs = r.scalar(),
        _ => q.join_split.amount = q.join_split.amount ^ (1 << r.below(40)),
    }
    if p != q {
        let s2: Vec<U256> = q.public_signals().iter().map(|x| x.skip_mr()).collect();
        ck!(s != s2, "ambiguous", "different requests have equal signals");
    }
    t.mark();
    Ok(())
}
pub fn any_send(r: &mut Rng) -> SendPublicInputs {
    let n = r.range(1, 4);
    let total = r.edge64();
    let amount = r.below(total.saturating_add(1).max(1));
    SendPublicInputs {
        join_split: JoinSplitPublicInputs {
            input_commitments: (0..n).map(|i| InputCommitment { root: if i == 0 || r.chance(1, 3) { Some(RawU256::new(r.scalar())) } else { None }, nullifier_hash: RawU256::new(r.scalar()) }).collect(),
            output_commitment: RawU256::new(r.scalar()),
            recent_commitment_index: r.next() as u32,
            fee_version: r.next() as u32,
            amount,
            fee: total.saturating_sub(amount),
            optional_fee: OptionalFee { collector: r.key(), amount: r.edge64() },
            token_id: r.next() as u16,
            metadata: metadata(r),
        },
        recipient_is_associated_token_account: r.chance(1, 2),
        solana_pay_transfer: r.chance(1, 2),
        hashed_inputs: r.scalar(),
    }
}
fn v13(r: &mut Rng, t: &mut Tr) -> R {
    let n = if r.chance(3, 4) { 14 } else { r.range(1, 14) as usize };
    let v: Vec<U256> = (0..n)
        .map(|_| match r.below(4) {
            0 => [0; 32],
            1 => u64b(r.edge64()),
            2 => {
                // sparse
                let mut b = [0; 32];
                for _ in 0..r.below(33) {
                    b[r.below(32) as usize] = r.next() as u8
                }
                b
            }
            _ => [0xff; 32],
        })
        .collect();
    say!(t, "{} inputs, non-zero bytes {:?}", n, v.iter().map(|x| x.iter().filter(|b| **b != 0).count()).collect::<Vec<_>>());
    let g = guarded(|| prepare_public_inputs_instructions(&v, n));
    let Ok(s) = g else {
        ck!(false, "abort", "{g:?}");
        return Ok(());
    };
    let costs: Vec<u32> = v.iter().flat_map(|x| (0..33).map(move |b| if b < 32 { if x[b] == 0 { 0 } else { 22 } } else if *x == [0; 32] { 0 } else { 30 })).collect();
    ck!(s.iter().map(|x| *x as usize).sum::<usize>() == 33 * n, "rounds", "{:?} do not cover {} rounds", s, 33 * n);
    let mut at = 0;
    for x in &s {
        let c: u32 = costs[at..at + *x as usize].iter().sum();
        ck!(*x > 0 && c <= 1330, "budget", "a step of {x} rounds costs {c} thousand units");
        ck!(*x <= 65535, "step", "a step of {x} rounds does not fit");
        at += *x as usize;
    }
    ck!(s.len() <= 140, "count", "{} steps do not fit the account", s.len());
    if n == 14 {
        let mut d = vec![0u8; VerificationAccount::SIZE];
        let mut a = <VerificationAccount as ProgramAccount>::new(&mut d).unwrap();
        let g = guarded(|| a.setup_public_inputs_instructions(&s));
        ck!(matches!(g, Ok(Ok(()))), "setup", "{g:?}");
        let got: Vec<u32> = (0..a.get_prepare_inputs_instructions_count() as usize).map(|i| a.get_prepare_inputs_instructions(i) as u32).collect();
        ck!(got == s, "stored", "stored {got:?}, expected {s:?}");
    }
    t.mark();
    Ok(())
}
#[allow(unused)]
fn _unused(_: AccountMeta) {}
