//@include common.rs
use ElusivError::*;
verus! {
//@include buffer.inc.rs
fn main(){}
}
