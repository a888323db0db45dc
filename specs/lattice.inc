// ------------------------------------------------------------------ stack figures
//@@insert Local
//@@insert Max

/// std::cmp::max / min on u64 (what their documentation says)
pub fn vx_cmp_max(a: u64, b: u64) -> (r: u64)
    ensures r == if a >= b { a } else { b }
{ if a >= b { a } else { b } }
pub fn vx_cmp_min(a: u64, b: u64) -> (r: u64)
    ensures r == if a <= b { a } else { b }
{ if a <= b { a } else { b } }

/// the number shown for a figure
pub open spec fn known(m: Max) -> nat { match m { Max::Exact(n) => n as nat, Max::LowerBound(n) => n as nat } }
pub open spec fn exact(m: Max) -> bool { m is Exact }
/// an unknown frame contributes 0 and is never exact
pub open spec fn lknown(l: Local) -> nat { match l { Local::Exact(n) => n as nat, Local::Unknown => 0 } }
pub open spec fn lexact(l: Local) -> bool { l is Exact }
pub open spec fn figure(e: bool, n: nat) -> Max { if e { Max::Exact(n as u64) } else { Max::LowerBound(n as u64) } }

impl AddSpecImpl<Local> for Max {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Local) -> bool { known(self) + lknown(rhs) <= u64::MAX }
    open spec fn add_spec(self, rhs: Local) -> Max { figure(exact(self) && lexact(rhs), known(self) + lknown(rhs)) } //#C05 a sum is exact only if both parts are, and is the sum of the known parts
}
//@@insert impl_add_local
impl AddSpecImpl<Max> for Max {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Max) -> bool { known(self) + known(rhs) <= u64::MAX }
    open spec fn add_spec(self, rhs: Max) -> Max { figure(exact(self) && exact(rhs), known(self) + known(rhs)) } //#C05 a sum is exact only if both parts are, and is the sum of the known parts
}
//@@insert impl_add_max
impl IntoSpecImpl<Max> for Local {
    open spec fn obeys_into_spec() -> bool { true }
    open spec fn into_spec(self) -> Max { figure(lexact(self), lknown(self)) } //#C05 an unknown frame is the lower bound 0
}
//@@insert impl_into

//@@include ismax.inc
