/// an opaque string
#[verifier::external_body]
pub struct VxStr { x: String }
