//@include common.rs
verus! {
//@include pairing.inc.rs
} // verus!
fn main() {}
