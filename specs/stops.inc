/// unwrap / expect and assert! stop the tool when they fail; debug_assert! does nothing in a release build
pub trait VxOpt<T> { spec fn vx_o(&self) -> Option<T>; }
impl<T> VxOpt<T> for Option<T> { open spec fn vx_o(&self) -> Option<T> { *self } }
impl<T> VxOpt<T> for &Option<T> { open spec fn vx_o(&self) -> Option<T> { **self } }
#[verifier::external_body]
pub fn vx_expect<T, O: VxOpt<T>>(o: O) -> (r: T)
    ensures o.vx_o() == Some(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_assert(b: bool)
    ensures b
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_debug_assert(b: bool)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T)
    ensures false
{ unimplemented!() }
