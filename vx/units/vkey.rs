//@include common.rs
use ElusivError::*;
verus! {
//@trust tokens.inc.rs
pub mod led { use super::*;
//@trust world.inc.rs
}
pub use led::*;
#[derive(Clone, Copy)]
//@item shared/elusiv-types/src/bytes.rs "enum ElusivOption"
//@trust child.inc.rs
pub mod vk { use super::*;
//@include vkey.inc.rs
}
fn main(){}
}
