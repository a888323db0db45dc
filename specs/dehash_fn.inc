/// contract proved in unit names
#[verifier::external_body]
fn dehash(demangled: &VxStr) -> (ret: Option<&VxStr>)
    ensures
//@@include dehash_spec.inc
{ unimplemented!() }
