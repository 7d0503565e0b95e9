//@include common.rs
verus! {
//@include pda.inc.rs
//@py dispatch rac/elusiv ElusivInstruction dispatch.tab
fn main(){}
}
