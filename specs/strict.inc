/// unwrap / expect and assert! must not fail
#[verifier::external_body]
pub fn vx_expect<T>(o: Option<T>) -> (r: T)
    requires o is Some
    ensures o == Some(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_assert(b: bool)
    requires b
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_debug_assert(b: bool)
    requires b
{ unimplemented!() }
