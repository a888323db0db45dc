//@@include sigt.inc
/// C09: equal, or one is `ptr` and both are pointers
pub open spec fn is_ptr(a: T) -> bool { a is Ptr || a is Opaque }
pub open spec fn loose(a: T, b: T) -> bool { a == b || (is_ptr(a) && is_ptr(b) && (a is Opaque || b is Opaque)) }
pub open spec fn sloose(i1: Seq<T>, o1: Option<Box<T>>, i2: Seq<T>, o2: Option<Box<T>>) -> bool {
    &&& i1.len() == i2.len()
    &&& forall|k: int| 0 <= k < i1.len() ==> loose(#[trigger] i1[k], i2[k])
    &&& match (o1, o2) { (None, None) => true, (Some(a), Some(b)) => loose(*a, *b), _ => false }
}
// ---- derive(PartialEq), assumed to be structural equality
pub trait VxSame {
    spec fn same(&self, o: &Self) -> bool;
    fn vx_is(&self, o: &Self) -> (r: bool)
        ensures r == self.same(o);
}
impl VxSame for usize { open spec fn same(&self, o: &usize) -> bool { self == o } fn vx_is(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxSame for VxStr { open spec fn same(&self, o: &VxStr) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_is(&self, o: &VxStr) -> (r: bool) { unimplemented!() } }
impl<'a> VxSame for FnSig<'a> { open spec fn same(&self, o: &FnSig<'a>) -> bool { self.ins() == o.ins() && self.out() == o.out() }
    #[verifier::external_body]
    fn vx_is(&self, o: &FnSig<'a>) -> (r: bool) { unimplemented!() } }
impl<'a> VxSame for Type<'a> { open spec fn same(&self, o: &Type<'a>) -> bool { self.t() == o.t() }
    #[verifier::external_body]
    fn vx_is(&self, o: &Type<'a>) -> (r: bool) { unimplemented!() } }
impl<'a> VxSame for Vec<Type<'a>> { open spec fn same(&self, o: &Vec<Type<'a>>) -> bool { ts(self@) == ts(o@) }
    #[verifier::external_body]
    fn vx_is(&self, o: &Vec<Type<'a>>) -> (r: bool) { unimplemented!() } }
impl<X: VxSame> VxSame for Box<X> { open spec fn same(&self, o: &Box<X>) -> bool { (**self).same(&**o) } fn vx_is(&self, o: &Box<X>) -> (r: bool) { (**self).vx_is(&**o) } }
impl<'b, X: VxSame> VxSame for &'b X { open spec fn same(&self, o: &&'b X) -> bool { (**self).same(*o) } fn vx_is(&self, o: &&'b X) -> (r: bool) { (**self).vx_is(*o) } }
pub fn vx_same<X: VxSame>(a: X, b: X) -> (r: bool)
    ensures r == a.same(&b)
{ a.vx_is(&b) }
pub struct VxDisc { pub d: Ghost<int> }
impl VxSame for VxDisc { open spec fn same(&self, o: &VxDisc) -> bool { self.d@ == o.d@ }
    #[verifier::external_body]
    fn vx_is(&self, o: &VxDisc) -> (r: bool) { unimplemented!() } }
pub open spec fn disc(t: T) -> int {
    match t { T::Alias(_) => 0, T::Array(..) => 1, T::Double => 2, T::Float => 3, T::Int(_) => 4, T::Packed(_) => 5, T::Struct(_) => 6, T::Fn(..) => 7, T::Ptr(_) => 8, T::Opaque => 9, T::Varargs => 10, T::Vector(..) => 11 }
}
#[verifier::external_body]
pub fn vx_discriminant(t: &Type) -> (r: VxDisc)
    ensures r.d@ == disc(t.t())
{ unimplemented!() }
// ---- LLVM notation
pub open spec fn show(t: T) -> Seq<char>
    decreases t, 0nat
{
    match t {
        T::Alias(s) => "%\""@ + s + "\""@,
        T::Array(n, t) => "["@ + dec(n) + " x "@ + show(*t) + "]"@,
        T::Double => "double"@,
        T::Float => "float"@,
        T::Int(n) => "i"@ + dec(n),
        T::Packed(f) => "<"@ + show_fields(f) + ">"@,
        T::Struct(f) => show_fields(f),
        T::Fn(i, o) => (match o { Some(t) => show(*t), None => "void"@ }) + " ("@ + list(i, i.len()) + ")"@,
        T::Ptr(t) => show(*t) + "*"@,
        T::Opaque => "ptr"@,
        T::Varargs => "..."@,
        T::Vector(n, t) => "<"@ + dec(n) + " x "@ + show(*t) + ">"@,
    }
}
/// the first k of a list, separated by commas
pub open spec fn list(s: Seq<T>, k: nat) -> Seq<char>
    decreases s, k
{
    if k == 0 || k > s.len() { Seq::empty() } else if k == 1 { show(s[0]) } else { list(s, (k - 1) as nat) + ", "@ + show(s[k - 1]) }
}
pub open spec fn show_fields(s: Seq<T>) -> Seq<char>
    decreases s, s.len() + 1
{ "{"@ + list(s, s.len()) + (if s.len() > 0 { " "@ } else { Seq::<char>::empty() }) + "}"@ }
pub open spec fn show_sig(i: Seq<T>, o: Option<Box<T>>) -> Seq<char>
{ (match o { Some(t) => show(*t), None => "void"@ }) + " ("@ + list(i, i.len()) + ")"@ }
