//@include common.rs
verus! {
//@include pda.inc.rs
//@py dispatch racw/elusiv_warden_network ElusivWardenNetworkInstruction dispatchw.tab
fn main(){}
}
