// ------------------------------------------------------------------ maps and sets
/// what a key of a map may be given as
pub trait VxBorrow<K> { spec fn vx_key(&self) -> K; }
impl VxBorrow<VxStr> for VxStr { open spec fn vx_key(&self) -> VxStr { *self } }
impl VxBorrow<VxStr> for &VxStr { open spec fn vx_key(&self) -> VxStr { **self } }
impl VxBorrow<VxStr> for &&VxStr { open spec fn vx_key(&self) -> VxStr { ***self } }
impl VxBorrow<u64> for u64 { open spec fn vx_key(&self) -> u64 { *self } }
impl VxBorrow<u64> for &u64 { open spec fn vx_key(&self) -> u64 { **self } }
/// std::collections::{HashMap, BTreeMap}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<K, V> { x: Option<(K, V)> }
impl<K, V> VxMap<K, V> {
    pub uninterp spec fn m(&self) -> IMap<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.m() == IMap::<K, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxBorrow<K>>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self.m().contains_key(k.vx_key()), r is Some ==> *(r->0) == self.m()[k.vx_key()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxBorrow<K>>(&self, k: &Q) -> (r: bool)
        ensures r == self.m().contains_key(k.vx_key())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<Q: VxBorrow<K>>(&mut self, k: Q, v: V) -> (r: Option<V>)
        ensures
            final(self).m() == old(self).m().insert(k.vx_key(), v),
            r is Some <==> old(self).m().contains_key(k.vx_key()), r is Some ==> r->0 == old(self).m()[k.vx_key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self).m() == IMap::<K, V>::empty()
    { unimplemented!() }
    /// entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_entry<Q: VxBorrow<K>>(&mut self, k: Q, v: V) -> (r: &mut V)
        ensures
            *r == (if old(self).m().contains_key(k.vx_key()) { old(self).m()[k.vx_key()] } else { v }),
            final(self).m() == old(self).m().insert(k.vx_key(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == 0 <==> (forall|k: K| !#[trigger] self.m().contains_key(k)),
            r <= 1 <==> (forall|k: K, l: K| #[trigger] self.m().contains_key(k) && #[trigger] self.m().contains_key(l) ==> k == l),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r <==> (forall|k: K| !#[trigger] self.m().contains_key(k))
    { unimplemented!() }
    /// every key once, with its value, in some order
    #[verifier::external_body]
    pub fn vx_it(&self) -> (r: VxIter<(&K, &V)>)
        ensures
            forall|i: int| 0 <= i < r.rest().len() ==> self.m().contains_key(*(#[trigger] r.rest()[i]).0) && *r.rest()[i].1 == self.m()[*r.rest()[i].0],
            forall|k: K| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && *(#[trigger] r.rest()[i]).0 == k,
            forall|i: int, j: int| 0 <= i < r.rest().len() && 0 <= j < r.rest().len() && *(#[trigger] r.rest()[i]).0 == *(#[trigger] r.rest()[j]).0 ==> i == j,
    { unimplemented!() }
    /// every key once, in some order
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: VxIter<&K>)
        ensures
            forall|i: int| 0 <= i < r.rest().len() ==> self.m().contains_key(*(#[trigger] r.rest()[i])),
            forall|k: K| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && *(#[trigger] r.rest()[i]) == k,
            forall|i: int, j: int| 0 <= i < r.rest().len() && 0 <= j < r.rest().len() && *(#[trigger] r.rest()[i]) == *(#[trigger] r.rest()[j]) ==> i == j,
    { unimplemented!() }
}
impl<K, V, Q: VxBorrow<K>> IndexSpecImpl<&Q> for VxMap<K, V> {
    open spec fn index_req(&self, i: &&Q) -> bool { self.m().contains_key((*i).vx_key()) }
}
impl<K, V, Q: VxBorrow<K>> core::ops::Index<&Q> for VxMap<K, V> {
    type Output = V;
    #[verifier::external_body]
    fn index(&self, i: &Q) -> (r: &V)
        ensures *r == self.m()[i.vx_key()]
    { unimplemented!() }
}
