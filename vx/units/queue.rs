//@include common.rs
use ElusivError::*;
verus! {
//@include base.inc.rs
//@include queue.inc.rs
//@py queue_instances
fn main(){}
}
