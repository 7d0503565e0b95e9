//@include common.rs
use ElusivError::*;
verus! {
//@include procbase.inc.rs
pub mod adm { use super::*; broadcast use super::ax_u256_eq;
//@include proc.inc.rs
#[derive(Clone, Copy)]
//@item shared/elusiv-types/src/bytes.rs "enum ElusivOption"
//@include verif.inc.rs
//@include nullifier.inc.rs
//@trust sched.inc.rs
//@include admit.inc.rs
//@include setup.inc.rs
}
fn main(){}
}
