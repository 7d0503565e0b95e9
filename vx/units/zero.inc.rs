pub uninterp spec fn zero32_s() -> U256;
pub axiom fn zero32_ax() ensures forall|i: int| 0 <= i < 32 ==> zero32_s()[i] == 0;
#[verifier::external_body] pub fn zero32() -> (r: U256) ensures r == zero32_s() { [0; 32] }
