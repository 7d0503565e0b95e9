//@include common.rs
verus! {
//@include tokens.inc.rs
//@include fee.inc.rs
fn main(){}
}
