#![allow(unused_imports, dead_code, unused_mut, unused_variables, non_snake_case, unused_parens, unused_macros, unused_braces, non_camel_case_types, unused_assignments, unreachable_code)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::*;
use vstd::seq::*;
use vstd::seq_lib::*;
use vstd::set::*;
use vstd::set_lib::*;
use vstd::std_specs::cmp::*;
macro_rules! rt_assert { ($c:expr $(, $($r:tt)*)?) => { if !($c) { abort() } } }
macro_rules! rt_assert_eq { ($c:expr, $d:expr $(, $($r:tt)*)?) => { if !($c == $d) { abort() } } }
//@macro shared/elusiv-utils/src/macros.rs guard
verus! {
global size_of usize == 8;
//@py errors
// partial correctness: an abort (panic, failed assert!, unwrap of None) fails the instruction and
// the runtime rolls the transaction back, so the function never returns
#[verifier::external_body]
pub fn abort() -> ! { panic!() }
pub trait OrAbort: Sized {
    type T;
    spec fn is_good(&self) -> bool;
    spec fn val(&self) -> Self::T;
    fn ok_or_abort(self) -> (r: Self::T) ensures self.is_good(), r == self.val();
}
impl<X> OrAbort for Option<X> {
    type T = X;
    open spec fn is_good(&self) -> bool { *self is Some }
    open spec fn val(&self) -> X { self->Some_0 }
    fn ok_or_abort(self) -> (r: X) ensures self.is_good(), r == self.val() { match self { Some(x) => x, None => abort() } }
}
impl<X, Y> OrAbort for Result<X, Y> {
    type T = X;
    open spec fn is_good(&self) -> bool { *self is Ok }
    open spec fn val(&self) -> X { self->Ok_0 }
    fn ok_or_abort(self) -> (r: X) ensures self.is_good(), r == self.val() { match self { Ok(x) => x, Err(_) => abort() } }
}
pub trait TryNum: Sized { type O; spec fn fits(self) -> bool; spec fn tv(self) -> Self::O; fn try_num(self) -> (r: Result<Self::O, ()>) ensures r is Ok <==> self.fits(), r is Ok ==> r->Ok_0 == self.tv(); }
} // verus!
