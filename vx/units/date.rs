//@include common.rs
verus! {
//@include date.inc.rs
fn main(){}
}
