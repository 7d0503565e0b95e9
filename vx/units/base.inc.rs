pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn cmp_max(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
impl TryNum for usize { type O = u32; open spec fn fits(self) -> bool { self <= u32::MAX } open spec fn tv(self) -> u32 { self as u32 } fn try_num(self) -> (r: Result<u32, ()>) ensures r is Ok <==> self.fits(), r is Ok ==> r->Ok_0 == self.tv() { if self <= u32::MAX as usize { Ok(self as u32) } else { Err(()) } } }
//@fn elusiv/src/bytes.rs in "macro:elusiv/src/bytes.rs:safe_num_downcast:usize_as_u32_safe" usize_as_u32_safe
//@ret r
//@spec
    ensures r == u,
//@end
/// `==` of the stored types (derived PartialEq / arrays of bytes) is structural equality
pub trait Eqv: Sized { fn eqv(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
