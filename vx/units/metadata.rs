//@include common.rs
verus! {
//@py metadata_size
//@include metadata.inc.rs
fn main(){}
}
