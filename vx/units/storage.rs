//@include common.rs
verus! {
//@include storage.inc.rs
fn main(){}
}
