//! A miniature, in-process stand-in for the Solana runtime. It runs the real
//! `process_instruction` on runtime-serialized accounts, executes the system / token CPIs the
//! program makes, records them, and enforces the runtime's own rules (atomicity, signer and
//! writable privileges, owner-only debits and data writes, lamport conservation).
use borsh::BorshDeserialize;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::sysvar::instructions as ixsys;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    /// system program transfer (signed)
    Sys { from: Pubkey, to: Pubkey, lamports: u64 },
    /// SPL token transfer
    Spl { from: Pubkey, to: Pubkey, authority: Pubkey, amount: u64 },
    Create { payer: Pubkey, account: Pubkey, lamports: u64, space: u64, owner: Pubkey },
    Ata { payer: Pubkey, wallet: Pubkey, account: Pubkey, mint: Pubkey },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Err(ProgramError),
    Panic(String),
    Runtime(String),
}

pub type Res = Result<Vec<Event>, Fail>;

thread_local! {
    static EVENTS: RefCell<Vec<Event>> = RefCell::new(Vec::new());
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

#[derive(Default, Clone)]
struct Ctx {
    program: Pubkey,
    now: i64,
    signers: Vec<Pubkey>,
    writable: Vec<Pubkey>,
    cpi_fail: Option<String>,
}

pub const RENT_PER_BYTE_YEAR: u64 = 3480;
pub fn rent(len: usize) -> u64 {
    (128 + len as u64) * RENT_PER_BYTE_YEAR * 2
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let now = CTX.with(|c| c.borrow().now);
        unsafe {
            *(p as *mut solana_program::clock::Clock) = solana_program::clock::Clock {
                unix_timestamp: now,
                slot: 1000,
                ..Default::default()
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe {
            *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default();
        }
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let r = cpi(ix, infos, seeds);
        if let Err(e) = &r {
            CTX.with(|c| c.borrow_mut().cpi_fail = Some(format!("{:?}", e)));
        }
        r
    }
}

pub fn init() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("RAC_PANIC").is_ok() {
            eprintln!("{i}");
        }
    }));
}

fn find<'x, 'a>(infos: &'x [AccountInfo<'a>], k: &Pubkey) -> Result<&'x AccountInfo<'a>, ProgramError> {
    infos.iter().find(|i| i.key == k).ok_or(ProgramError::NotEnoughAccountKeys)
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let (program, mut signers, writable) =
        CTX.with(|c| (c.borrow().program, c.borrow().signers.clone(), c.borrow().writable.clone()));
    for s in seeds {
        signers.push(Pubkey::create_program_address(s, &program).map_err(|_| ProgramError::InvalidSeeds)?);
    }
    for m in &ix.accounts {
        if m.is_signer && !signers.contains(&m.pubkey) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if m.is_writable && !writable.contains(&m.pubkey) {
            return Err(ProgramError::Custom(0xdead));
        }
    }
    let sys = solana_program::system_program::ID;
    if ix.program_id == sys {
        use solana_program::system_instruction::SystemInstruction as SI;
        let si: SI = bincode_sys(&ix.data)?;
        match si {
            SI::CreateAccount { lamports, space, owner } => {
                let (a, b) = (find(infos, &ix.accounts[0].pubkey)?, find(infos, &ix.accounts[1].pubkey)?);
                if b.lamports() != 0 || b.data_len() != 0 || *b.owner != sys {
                    return Err(ProgramError::AccountAlreadyInitialized);
                }
                move_sys(a, b, lamports)?;
                b.realloc(space as usize, true)?;
                b.assign(&owner);
                push(Event::Create { payer: *a.key, account: *b.key, lamports, space, owner });
            }
            SI::Transfer { lamports } => {
                let (a, b) = (find(infos, &ix.accounts[0].pubkey)?, find(infos, &ix.accounts[1].pubkey)?);
                move_sys(a, b, lamports)?;
                push(Event::Sys { from: *a.key, to: *b.key, lamports });
            }
            _ => return Err(ProgramError::InvalidInstructionData),
        }
        Ok(())
    } else if ix.program_id == spl_token::ID {
        if ix.data.len() != 9 || ix.data[0] != 3 {
            return Err(ProgramError::InvalidInstructionData);
        }
        let amount = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
        let (a, b) = (find(infos, &ix.accounts[0].pubkey)?, find(infos, &ix.accounts[1].pubkey)?);
        let auth = ix.accounts[2].pubkey;
        if !signers.contains(&auth) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        spl_move(a, b, &auth, amount)?;
        push(Event::Spl { from: *a.key, to: *b.key, authority: auth, amount });
        Ok(())
    } else if ix.program_id == spl_associated_token_account::ID {
        let m = &ix.accounts;
        let (payer, ata, wallet, mint) = (m[0].pubkey, m[1].pubkey, m[2].pubkey, m[3].pubkey);
        let (p, t) = (find(infos, &payer)?, find(infos, &ata)?);
        if spl_associated_token_account::get_associated_token_address(&wallet, &mint) != ata {
            return Err(ProgramError::InvalidSeeds);
        }
        if t.lamports() != 0 {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        move_sys(p, t, rent(165))?;
        t.realloc(165, true)?;
        t.assign(&spl_token::ID);
        t.try_borrow_mut_data()?.copy_from_slice(&token_account_data(&mint, &wallet, 0));
        push(Event::Ata { payer, wallet, account: ata, mint });
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn bincode_sys(d: &[u8]) -> Result<solana_program::system_instruction::SystemInstruction, ProgramError> {
    use solana_program::system_instruction::SystemInstruction as SI;
    if d.len() < 4 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let tag = u32::from_le_bytes(d[..4].try_into().unwrap());
    let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    Ok(match tag {
        0 => SI::CreateAccount {
            lamports: u(4),
            space: u(12),
            owner: Pubkey::new_from_array(d[20..52].try_into().unwrap()),
        },
        2 => SI::Transfer { lamports: u(4) },
        _ => return Err(ProgramError::InvalidInstructionData),
    })
}

fn move_sys(a: &AccountInfo, b: &AccountInfo, l: u64) -> ProgramResult {
    if *a.owner != solana_program::system_program::ID || a.data_len() != 0 {
        return Err(ProgramError::InvalidArgument);
    }
    let x = a.lamports().checked_sub(l).ok_or(ProgramError::InsufficientFunds)?;
    **a.try_borrow_mut_lamports()? = x;
    let y = b.lamports() + l;
    **b.try_borrow_mut_lamports()? = y;
    Ok(())
}

pub fn token_account_data(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    use solana_program::program_pack::Pack;
    let a = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    let mut v = vec![0; spl_token::state::Account::LEN];
    spl_token::state::Account::pack(a, &mut v).unwrap();
    v
}

fn spl_move(a: &AccountInfo, b: &AccountInfo, auth: &Pubkey, amount: u64) -> ProgramResult {
    use solana_program::program_pack::Pack;
    use spl_token::state::Account as T;
    if *a.owner != spl_token::ID || *b.owner != spl_token::ID {
        return Err(ProgramError::IllegalOwner);
    }
    let mut x = T::unpack(&a.try_borrow_data()?)?;
    let y = T::unpack(&b.try_borrow_data()?)?;
    if x.mint != y.mint || x.owner != *auth {
        return Err(ProgramError::InvalidArgument);
    }
    x.amount = x.amount.checked_sub(amount).ok_or(ProgramError::InsufficientFunds)?;
    T::pack(x, &mut a.try_borrow_mut_data()?)?;
    let mut y = T::unpack(&b.try_borrow_data()?)?;
    y.amount = y.amount.checked_add(amount).ok_or(ProgramError::InvalidArgument)?;
    T::pack(y, &mut b.try_borrow_mut_data()?)?;
    Ok(())
}

fn push(e: Event) {
    EVENTS.with(|v| v.borrow_mut().push(e))
}

#[derive(Clone)]
pub struct World {
    pub program: Pubkey,
    pub accs: BTreeMap<Pubkey, Acc>,
    pub now: i64,
    /// keep the data of accounts without lamports, as within a transaction
    pub keep: bool,
}

thread_local! {
    static REC: RefCell<Option<Vec<(World, Vec<Instruction>, usize)>>> = RefCell::new(None);
}
/// starts (true) or ends (false) the recording of accepted instructions with the state before them
pub fn record(on: bool) -> Vec<(World, Vec<Instruction>, usize)> {
    REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), if on { Some(vec![]) } else { None })).unwrap_or_default()
}

pub type Entry = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

pub fn meta(k: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: signer, is_writable: writable }
}

impl World {
    pub fn new(program: Pubkey) -> Self {
        World { program, accs: BTreeMap::new(), now: 1_700_000_000, keep: false }
    }
    pub fn sys(&mut self, k: Pubkey, lamports: u64) {
        self.accs.insert(k, Acc { lamports, data: vec![], owner: solana_program::system_program::ID });
    }
    pub fn put(&mut self, k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey) {
        self.accs.insert(k, Acc { lamports, data, owner });
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accs.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn data(&self, k: &Pubkey) -> Vec<u8> {
        self.accs.get(k).map(|a| a.data.clone()).unwrap_or_default()
    }
    pub fn token_amount(&self, k: &Pubkey) -> u64 {
        use solana_program::program_pack::Pack;
        self.accs
            .get(k)
            .and_then(|a| spl_token::state::Account::unpack(&a.data).ok())
            .map(|a| a.amount)
            .unwrap_or(0)
    }
    /// Runs instruction `idx` of the transaction `tx` (only that one; the others are visible
    /// through the instructions sysvar).
    pub fn exec(&mut self, entry: Entry, tx: &[Instruction], idx: usize) -> Res {
        let rec = REC.with(|r| r.borrow().as_ref().map_or(false, |v| v.len() < 60));
        let start = rec.then(|| self.clone());
        let g = self.exec_inner(entry, tx, idx);
        if let (Some(s), true) = (start, g.is_ok()) {
            REC.with(|r| {
                if let Some(v) = r.borrow_mut().as_mut() {
                    v.push((s, tx.to_vec(), idx))
                }
            });
        }
        g
    }
    fn exec_inner(&mut self, entry: Entry, tx: &[Instruction], idx: usize) -> Res {
        let ix = &tx[idx];
        let sysk = ixsys::ID;
        let mut uses_sysvar = false;
        for m in &ix.accounts {
            if m.pubkey == sysk {
                uses_sysvar = true;
            }
            self.accs.entry(m.pubkey).or_insert(Acc {
                lamports: 0,
                data: vec![],
                owner: solana_program::system_program::ID,
            });
        }
        if uses_sysvar {
            let b: Vec<ixsys::BorrowedInstruction> = tx
                .iter()
                .map(|i| ixsys::BorrowedInstruction {
                    program_id: &i.program_id,
                    accounts: i
                        .accounts
                        .iter()
                        .map(|m| ixsys::BorrowedAccountMeta {
                            pubkey: &m.pubkey,
                            is_signer: m.is_signer,
                            is_writable: m.is_writable,
                        })
                        .collect(),
                    data: &i.data,
                })
                .collect();
            let mut d = ixsys::construct_instructions_data(&b);
            ixsys::store_current_index(&mut d, idx as u16);
            self.accs.insert(
                sysk,
                Acc { lamports: 1, data: d, owner: Pubkey::new_from_array([7; 32]) },
            );
        }
        // privileges are per key: the union over its occurrences
        let mut signers = vec![];
        let mut writable = vec![];
        for m in &ix.accounts {
            if m.is_signer {
                signers.push(m.pubkey)
            }
            if m.is_writable {
                writable.push(m.pubkey)
            }
        }
        // -- serialize like the BPF loader
        const PAD: usize = 10240;
        let mut first: Vec<Pubkey> = vec![];
        let mut cap = 8 + ix.data.len() + 8 + 32 + 64;
        for m in &ix.accounts {
            cap += 128 + self.accs[&m.pubkey].data.len() + PAD + 32;
        }
        let mut store = vec![0u64; cap / 8 + 8];
        let base = store.as_mut_ptr() as *mut u8;
        let mut o = 0usize;
        unsafe fn w(base: *mut u8, o: &mut usize, b: &[u8]) {
            std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(*o), b.len());
            *o += b.len();
        }
        unsafe {
            w(base, &mut o, &(ix.accounts.len() as u64).to_le_bytes());
            let mut seen: Vec<Pubkey> = vec![];
            for m in &ix.accounts {
                if let Some(i) = seen.iter().position(|k| *k == m.pubkey) {
                    w(base, &mut o, &[i as u8, 0, 0, 0, 0, 0, 0, 0]);
                } else {
                    let a = &self.accs[&m.pubkey];
                    w(base, &mut o, &[
                        0xff,
                        signers.contains(&m.pubkey) as u8,
                        writable.contains(&m.pubkey) as u8,
                        0,
                        0, 0, 0, 0,
                    ]);
                    w(base, &mut o, m.pubkey.as_ref());
                    w(base, &mut o, a.owner.as_ref());
                    w(base, &mut o, &a.lamports.to_le_bytes());
                    w(base, &mut o, &(a.data.len() as u64).to_le_bytes());
                    w(base, &mut o, &a.data);
                    o += PAD;
                    while o % 8 != 0 {
                        o += 1
                    }
                    w(base, &mut o, &0u64.to_le_bytes());
                    first.push(m.pubkey);
                }
                seen.push(m.pubkey);
            }
            w(base, &mut o, &(ix.data.len() as u64).to_le_bytes());
            w(base, &mut o, &ix.data);
            w(base, &mut o, self.program.as_ref());
        }
        EVENTS.with(|e| e.borrow_mut().clear());
        CTX.with(|c| {
            *c.borrow_mut() = Ctx {
                program: self.program,
                now: self.now,
                signers,
                writable: writable.clone(),
                cpi_fail: None,
            }
        });
        let (pid, infos, data) = unsafe { solana_program::entrypoint::deserialize(base) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entry(pid, &infos, data)));
        match r {
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                return Err(Fail::Panic(m));
            }
            Ok(Err(e)) => return Err(Fail::Err(e)),
            Ok(Ok(())) => {}
        }
        if let Some(m) = CTX.with(|c| c.borrow().cpi_fail.clone()) {
            return Err(Fail::Runtime(format!("failed CPI {m}")));
        }
        let events = EVENTS.with(|e| e.borrow().clone());
        // -- runtime checks and write-back
        let mut before: u128 = 0;
        let mut after: u128 = 0;
        let mut out = vec![];
        for (i, info) in infos.iter().enumerate() {
            let k = *info.key;
            if ix.accounts[..i].iter().any(|m| m.pubkey == k) {
                continue;
            }
            let a = &self.accs[&k];
            let nl = info.lamports();
            let nd = info.data.borrow().to_vec();
            let no = *info.owner;
            before += a.lamports as u128;
            after += nl as u128;
            let changed = nl != a.lamports || nd != a.data || no != a.owner;
            if changed && !writable.contains(&k) {
                return Err(Fail::Runtime(format!("read-only account {k} modified")));
            }
            let created = events.iter().any(|e| match e {
                Event::Create { account, .. } => *account == k,
                Event::Ata { account, .. } => *account == k,
                _ => false,
            });
            if nd != a.data && a.owner != self.program && !created && a.owner != spl_token::ID {
                return Err(Fail::Runtime(format!("data of foreign account {k} modified")));
            }
            if nl < a.lamports && a.owner != self.program {
                let out: u64 = events
                    .iter()
                    .map(|e| match e {
                        Event::Sys { from, lamports, .. } if *from == k => *lamports,
                        Event::Create { payer, lamports, .. } if *payer == k => *lamports,
                        Event::Ata { payer, .. } if *payer == k => rent(165),
                        _ => 0,
                    })
                    .sum();
                if out < a.lamports - nl {
                    return Err(Fail::Runtime(format!("debit of foreign account {k}")));
                }
            }
            out.push((k, Acc { lamports: nl, data: nd, owner: no }));
        }
        if before != after {
            return Err(Fail::Runtime("sum of lamports changed".into()));
        }
        for (k, mut a) in out {
            if k == sysk {
                continue;
            }
            if a.lamports == 0 && !self.keep {
                // the runtime deletes accounts without lamports at the end of the transaction
                a = Acc { lamports: 0, data: vec![], owner: solana_program::system_program::ID };
            }
            self.accs.insert(k, a);
        }
        Ok(events)
    }
}

#[allow(dead_code)]
pub fn decode<T: BorshDeserialize>(d: &[u8]) -> T {
    T::deserialize(&mut &d[..]).unwrap()
}
