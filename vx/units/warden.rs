//@include common.rs
verus! {
//@trust tokens.inc.rs
pub mod led { use super::*;
//@trust world.inc.rs
}
pub use led::*;
#[derive(Clone, Copy)]
//@item shared/elusiv-types/src/bytes.rs "enum ElusivOption"
//@trust child.inc.rs
//@trust date.inc.rs
//@trust unver.inc.rs
//@include wbase.inc.rs
//@include register.inc.rs
//@include wstate.inc.rs
//@include wstats.inc.rs
//@include genesis.inc.rs
//@include proposal.inc.rs
fn main(){}
}
