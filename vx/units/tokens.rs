//@include common.rs
verus! {
//@include tokens.inc.rs
fn main(){}
}
