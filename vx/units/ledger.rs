//@include common.rs
use ElusivError::*;
verus! {
//@include tokens.inc.rs
pub mod ledger { use super::*;
//@include world.inc.rs
}
fn main(){}
}
