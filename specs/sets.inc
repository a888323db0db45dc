// ------------------------------------------------------------------ sets
/// std::collections::{HashSet, BTreeSet}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxSet<K> { x: Option<K> }
impl<K> VxSet<K> {
    pub uninterp spec fn s(&self) -> ISet<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.s() == ISet::<K>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VxBorrow<K>>(&self, k: &Q) -> (r: bool)
        ensures r == self.s().contains(k.vx_key())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<Q: VxBorrow<K>>(&mut self, k: Q) -> (r: bool)
        ensures final(self).s() == old(self).s().insert(k.vx_key()), r == !old(self).s().contains(k.vx_key())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r <==> (forall|k: K| !#[trigger] self.s().contains(k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == 0 <==> (forall|k: K| !#[trigger] self.s().contains(k))
    { unimplemented!() }
    /// every element once, in some order
    #[verifier::external_body]
    pub fn vx_it(&self) -> (r: VxIter<&K>)
        ensures
            forall|i: int| 0 <= i < r.rest().len() ==> self.s().contains(*(#[trigger] r.rest()[i])),
            forall|k: K| #[trigger] self.s().contains(k) ==> exists|i: int| 0 <= i < r.rest().len() && *(#[trigger] r.rest()[i]) == k,
            forall|i: int, j: int| 0 <= i < r.rest().len() && 0 <= j < r.rest().len() && *(#[trigger] r.rest()[i]) == *(#[trigger] r.rest()[j]) ==> i == j,
    { unimplemented!() }
}
impl VxBorrow<NodeIndex> for NodeIndex { open spec fn vx_key(&self) -> NodeIndex { *self } }
impl VxBorrow<NodeIndex> for &NodeIndex { open spec fn vx_key(&self) -> NodeIndex { **self } }
pub open spec fn is_value<K, V>(m: IMap<K, V>, v: V) -> bool { exists|k: K| #[trigger] m.contains_key(k) && m[k] == v }
/// Default::default()
pub trait VxDefault { spec fn vx_is_default(&self) -> bool; }
impl<K> VxDefault for VxSet<K> { open spec fn vx_is_default(&self) -> bool { self.s() == ISet::<K>::empty() } }
impl<K, V> VxMap<K, V> {
    /// the keys in iteration order
    pub uninterp spec fn ks(&self) -> Seq<K>;
    /// entry(k).or_default()
    #[verifier::external_body]
    pub fn vx_entry_default<Q: VxBorrow<K>>(&mut self, k: Q) -> (r: &mut V)
        where V: VxDefault
        ensures
            old(self).m().contains_key(k.vx_key()) ==> *r == old(self).m()[k.vx_key()],
            !old(self).m().contains_key(k.vx_key()) ==> (*r).vx_is_default(),
            final(self).m() == old(self).m().insert(k.vx_key(), *final(r)),
    { unimplemented!() }
    /// every value, once per key
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: VxIter<&V>)
        ensures
            forall|i: int| 0 <= i < r.rest().len() ==> is_value(self.m(), *(#[trigger] r.rest()[i])),
            forall|k: K| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && *(#[trigger] r.rest()[i]) == self.m()[k],
    { unimplemented!() }
    /// iter_mut, by position
    #[verifier::external_body]
    pub fn vx_mut_len(&self) -> (r: usize)
        ensures
            r == self.ks().len(),
            forall|i: int| 0 <= i < self.ks().len() ==> self.m().contains_key(#[trigger] self.ks()[i]),
            forall|k: K| #[trigger] self.m().contains_key(k) ==> self.ks().contains(k),
            forall|i: int, j: int| 0 <= i < self.ks().len() && 0 <= j < self.ks().len() && #[trigger] self.ks()[i] == #[trigger] self.ks()[j] ==> i == j,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_key_at(&self, i: usize) -> (r: K)
        requires i < self.ks().len()
        ensures r == self.ks()[i as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mut_at(&mut self, i: usize) -> (r: &mut V)
        requires i < old(self).ks().len()
        ensures
            old(self).m().contains_key(old(self).ks()[i as int]) ==> *r == old(self).m()[old(self).ks()[i as int]],
            final(self).m() == old(self).m().insert(old(self).ks()[i as int], *final(r)), final(self).ks() == old(self).ks(),
    { unimplemented!() }
}
