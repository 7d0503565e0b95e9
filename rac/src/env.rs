//! accounts of the program, laid out as the program lays them out
use crate::svm::*;
use elusiv_types::accounts::*;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

pub fn blank<T: SizedAccount + PDAAccount>(off: PDAOffset) -> (Pubkey, Vec<u8>) {
    let (k, b) = T::find(off);
    let mut d = vec![0u8; T::SIZE];
    d[0] = b;
    (k, d)
}
pub fn blank_pk<T: SizedAccount + PDAAccount>(pk: Pubkey, off: PDAOffset) -> (Pubkey, Vec<u8>) {
    let (k, b) = T::find_with_pubkey(pk, off);
    let mut d = vec![0u8; T::SIZE];
    d[0] = b;
    (k, d)
}
/// puts a blank PDA account of type T into the world
pub fn put<T: SizedAccount + PDAAccount>(w: &mut World, off: PDAOffset) -> Pubkey {
    let (k, d) = blank::<T>(off);
    let p = w.program;
    w.put(k, rent(d.len()), d, p);
    k
}
#[macro_export]
macro_rules! acct {
    ($d:expr, $t:ty) => { <$t as elusiv_types::accounts::ProgramAccount>::new(&mut $d[..]).unwrap() };
}

/// memory of child accounts for direct calls
pub struct Child {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
}
impl Child {
    pub fn new(size: usize) -> Self {
        let mut data = vec![0; size];
        data[0] = 1;
        Child { key: Pubkey::new_unique(), owner: elusiv::id(), lamports: 1 << 40, data }
    }
    pub fn info(&mut self) -> AccountInfo<'_> {
        AccountInfo::new(&self.key, false, true, &mut self.lamports, &mut self.data[..], &self.owner, false, 0)
    }
}
/// runs real code that may abort; an abort is a rolled back transaction
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
