//@note `==` of byte arrays compares their contents
pub broadcast axiom fn ax_u256_eq(a: [u8; 32], b: [u8; 32]) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b), <[u8; 32] as PartialEqSpec>::obeys_eq_spec();
