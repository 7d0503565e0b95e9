//@include common.rs
use ElusivError::*;
verus! {
//@include procbase.inc.rs
pub mod snd { use super::*; broadcast use super::ax_u256_eq;
//@include proc.inc.rs
#[derive(Clone, Copy)]
//@item shared/elusiv-types/src/bytes.rs "enum ElusivOption"
//@py instruction_indices
//@include verif.inc.rs
//@include sysvar.inc.rs
//@include payout.inc.rs
//@include nullifier.inc.rs
//@include finalize.inc.rs
}
fn main(){}
}
