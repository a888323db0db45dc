// ------------------------------------------------------------------ iterators
// std and petgraph iterators: a VxIter yields the items of rest() in order (assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { x: Option<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
    pub fn vx_into_it(self) -> (r: VxIter<T>)
        ensures r == self
    { self }
}
#[verifier::external_body]
pub fn vx_iter_vec<T>(v: Vec<T>) -> (r: VxIter<T>)
    ensures r.rest() == v@
{ unimplemented!() }
pub trait VxItRef<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_it(&self) -> (r: VxIter<&T>)
        ensures r.rest().len() == self.vx_items().len(), forall|i: int| 0 <= i < self.vx_items().len() ==> *(#[trigger] r.rest()[i]) == self.vx_items()[i];
}
impl<T> VxItRef<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_it(&self) -> (r: VxIter<&T>) { unimplemented!() }
}
pub trait VxItInto<T> {
    spec fn vx_into_items(self) -> Seq<T>;
    fn vx_into_it(self) -> (r: VxIter<T>)
        ensures r.rest() == self.vx_into_items();
}
pub trait VxItRefInto<'a, T> {
    spec fn vx_ref_items(self) -> Seq<T>;
    fn vx_into_it(self) -> (r: VxIter<&'a T>)
        ensures r.rest().len() == self.vx_ref_items().len(), forall|i: int| 0 <= i < self.vx_ref_items().len() ==> *(#[trigger] r.rest()[i]) == self.vx_ref_items()[i];
}
impl<'a, T> VxItRefInto<'a, T> for &'a Vec<T> {
    open spec fn vx_ref_items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: VxIter<&'a T>) { unimplemented!() }
}
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < s@.len() && PartialEqSpec::eq_spec(&(#[trigger] s@[i]), x));
