//@include common.rs
verus! {
//@include map.inc.rs
fn main(){}
}
