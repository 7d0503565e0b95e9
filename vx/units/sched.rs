//@include common.rs
use ElusivError::*;
verus! {
pub type U256 = [u8; 32];
//@include eqax.inc.rs
pub mod sch { use super::*; broadcast use super::ax_u256_eq;
//@include zero.inc.rs
//@const elusiv/src/state/proof.rs MAX_PUBLIC_INPUTS_COUNT
//@include sched.inc.rs
}
fn main(){}
}
