pub open spec fn known(m: Max) -> nat { match m { Max::Exact(n) => n as nat, Max::LowerBound(n) => n as nat } }
pub open spec fn exact(m: Max) -> bool { m is Exact }
pub open spec fn lknown(l: Local) -> nat { match l { Local::Exact(n) => n as nat, Local::Unknown => 0 } }
//@@include ismax.inc
/// the contract proved in unit lattice
#[verifier::external_body]
pub fn max_of(iter: VxIter<Max>) -> (r: Option<Max>)
    ensures is_max_of(iter.rest(), r)
{ unimplemented!() }
