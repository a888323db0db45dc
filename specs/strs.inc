// ------------------------------------------------------------------ strings, maps and sets
/// str, String and Cow<str>: a sequence of characters
#[derive(Clone, Copy)]
pub struct VxStr { pub s: Ghost<Seq<char>> }
impl View for VxStr {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { self.s@ }
}
impl PartialEqSpecImpl for VxStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxStr) -> bool { self == o }
}
impl PartialEq for VxStr {
    #[verifier::external_body]
    fn eq(&self, o: &VxStr) -> bool { unimplemented!() }
}
/// a string literal
pub open spec fn lit(s: &str) -> VxStr { VxStr { s: Ghost(s@) } }
#[verifier::external_body]
pub fn vx_lit(s: &'static str) -> (r: &'static VxStr)
    ensures *r == lit(s)
{ unimplemented!() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
impl VxStr {
    #[verifier::external_body]
    pub fn starts_with(&self, p: &VxStr) -> (r: bool)
        ensures r == starts(self@, p@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix(&self, p: &VxStr) -> (r: Option<&VxStr>)
        ensures r is Some <==> starts(self@, p@), r is Some ==> (*r->0)@ == self@.skip(p@.len() as int)
    { unimplemented!() }
    pub fn to_owned(&self) -> (r: VxStr)
        ensures r == *self
    { *self }
    pub fn to_string(&self) -> (r: VxStr)
        ensures r == *self
    { *self }
}
/// `&**x`: the string behind (references to) a string
pub trait VxAsStr {
    spec fn vx_s(&self) -> VxStr;
    fn vx_str(&self) -> (r: &VxStr)
        ensures *r == self.vx_s();
}
impl VxAsStr for VxStr {
    open spec fn vx_s(&self) -> VxStr { *self }
    fn vx_str(&self) -> (r: &VxStr) { self }
}
impl<T: VxAsStr> VxAsStr for &T {
    open spec fn vx_s(&self) -> VxStr { (*self).vx_s() }
    fn vx_str(&self) -> (r: &VxStr) { (*self).vx_str() }
}
/// x == Some(y) for strings
pub fn vx_some_eq<A: VxAsStr, B: VxAsStr>(a: Option<A>, b: Option<B>) -> (r: bool)
    ensures r == (match (a, b) { (Some(x), Some(y)) => x.vx_s() == y.vx_s(), (None, None) => true, _ => false })
{
    match (a, b) { (Some(x), Some(y)) => *x.vx_str() == *y.vx_str(), (None, None) => true, _ => false }
}
pub fn vx_eq<A: VxAsStr, B: VxAsStr>(a: A, b: B) -> (r: bool)
    ensures r == (a.vx_s() == b.vx_s())
{ *a.vx_str() == *b.vx_str() }

// ---- further queries (a method of the same name that a unit gives a contract of its own takes precedence)
pub open spec fn vx_ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn vx_part(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub trait VxStrQ {
    spec fn vx_q(&self) -> Seq<char>;
    fn len(&self) -> (r: usize)
        ensures r >= self.vx_q().len(), r == 0 <==> self.vx_q().len() == 0;
    fn is_empty(&self) -> (r: bool)
        ensures r <==> self.vx_q().len() == 0;
    fn ends_with(&self, p: &VxStr) -> (r: bool)
        ensures r == vx_ends(self.vx_q(), p@);
    fn contains(&self, p: &VxStr) -> (r: bool)
        ensures r == vx_part(self.vx_q(), p@);
    fn eq_ignore_ascii_case(&self, p: &VxStr) -> (r: bool)
        ensures self.vx_q() == p@ ==> r;
    fn is_ascii(&self) -> (r: bool);
}
impl VxStrQ for VxStr {
    open spec fn vx_q(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with(&self, p: &VxStr) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, p: &VxStr) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn eq_ignore_ascii_case(&self, p: &VxStr) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_ascii(&self) -> (r: bool) { unimplemented!() }
}
/// cmp::max and cmp::min on machine numbers
pub trait VxNum: Sized { spec fn n(self) -> int; }
impl VxNum for u8 { open spec fn n(self) -> int { self as int } }
impl VxNum for u16 { open spec fn n(self) -> int { self as int } }
impl VxNum for u32 { open spec fn n(self) -> int { self as int } }
impl VxNum for u64 { open spec fn n(self) -> int { self as int } }
impl VxNum for usize { open spec fn n(self) -> int { self as int } }
impl VxNum for i32 { open spec fn n(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_cmp_max<T: VxNum>(a: T, b: T) -> (r: T)
    ensures r.n() == (if a.n() >= b.n() { a.n() } else { b.n() }), r == a || r == b
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_cmp_min<T: VxNum>(a: T, b: T) -> (r: T)
    ensures r.n() == (if a.n() <= b.n() { a.n() } else { b.n() }), r == a || r == b
{ unimplemented!() }
