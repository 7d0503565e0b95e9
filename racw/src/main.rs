#![allow(clippy::all, dead_code)]
#[path = "../../rac/src/harness.rs"]
mod harness;
mod p_warden;
#[path = "../../rac/src/svm.rs"]
mod svm;
pub use harness::*;

#[macro_export]
macro_rules! acct {
    ($d:expr, $t:ty) => { <$t as elusiv_types::accounts::ProgramAccount>::new(&mut $d[..]).unwrap() };
}

fn main() {
    svm::init();
    drive(p_warden::props())
}
