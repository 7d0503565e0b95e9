//@include common.rs
use ElusivError::*;
verus! {
//@include procbase.inc.rs
pub mod cmp_ { use super::*; broadcast use super::ax_u256_eq;
//@trust proc.inc.rs
#[derive(Clone, Copy)]
//@item shared/elusiv-types/src/bytes.rs "enum ElusivOption"
//@trust verif.inc.rs
//@trust nullifier.inc.rs
//@trust sched.inc.rs
//@trust admit.inc.rs
//@trust setup.inc.rs
//@include compute.inc.rs
}
fn main(){}
}
