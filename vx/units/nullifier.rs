//@include common.rs
use ElusivError::*;
verus! {
//@include bytes.inc.rs
//@const elusiv/src/types.rs JOIN_SPLIT_MAX_N_ARITY
#[derive(Clone, Copy)]
//@item shared/elusiv-types/src/bytes.rs "enum ElusivOption"
//@include nullacc.inc.rs
//@include nullset.inc.rs
fn main(){}
}
