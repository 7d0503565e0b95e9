pub mod nulm { use super::*;
//@trust nullacc.inc.rs
}
pub use nulm::NullifierAccount;
