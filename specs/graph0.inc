// ------------------------------------------------------------------ petgraph (assumed contracts)
#[derive(Clone, Copy)]
pub struct NodeIndex { pub ix: usize }
impl PartialEqSpecImpl for NodeIndex {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &NodeIndex) -> bool { self == o }
}
impl PartialEq for NodeIndex {
    #[verifier::external_body]
    fn eq(&self, o: &NodeIndex) -> bool { self.ix == o.ix }
}
impl NodeIndex { pub open spec fn i(self) -> int { self.ix as int } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Direction { Outgoing, Incoming }
pub type E2 = Seq<(int, int)>;
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(E)]
pub struct DiGraph<N, E> { n: Option<(N, E)> }
impl<N, E> DiGraph<N, E> {
    pub uninterp spec fn nodes(&self) -> Seq<N>;
    pub uninterp spec fn edges(&self) -> E2;
    /// every edge is between nodes of the graph
    pub open spec fn wf(&self) -> bool {
        &&& self.nodes().len() <= usize::MAX
        &&& forall|k: int| 0 <= k < self.edges().len() ==> 0 <= (#[trigger] self.edges()[k]).0 < self.nodes().len() && 0 <= self.edges()[k].1 < self.nodes().len()
    }
    pub open spec fn has(&self, i: NodeIndex) -> bool { i.i() < self.nodes().len() }
    #[verifier::external_body]
    pub fn neighbors_directed(&self, n: NodeIndex, d: Direction) -> (r: VxIter<NodeIndex>)
        ensures
            d is Outgoing ==> (forall|m: int| edge(self.edges(), n.i(), m) <==> #[trigger] at(r.rest(), m)),
            d is Incoming ==> (forall|m: int| edge(self.edges(), m, n.i()) <==> #[trigger] at(r.rest(), m)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn neighbors(&self, n: NodeIndex) -> (r: VxIter<NodeIndex>)
        ensures forall|m: int| edge(self.edges(), n.i(), m) <==> #[trigger] at(r.rest(), m),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex)
        ensures
            r.i() == old(self).nodes().len(), final(self).nodes() == old(self).nodes().push(n), final(self).edges() == old(self).edges(),
            final(self).nodes().len() <= usize::MAX, // (panics when the index type overflows)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E)
        requires old(self).has(a), old(self).has(b)
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().push((a.i(), b.i())),
    { unimplemented!() }
}
/// the sequence of node indices mentions node m
pub open spec fn at(s: Seq<NodeIndex>, m: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i() == m }
impl<N, E> IndexSpecImpl<NodeIndex> for DiGraph<N, E> {
    open spec fn index_req(&self, i: &NodeIndex) -> bool { self.has(*i) }
}
impl<N, E> core::ops::Index<NodeIndex> for DiGraph<N, E> {
    type Output = N;
    #[verifier::external_body]
    fn index(&self, i: NodeIndex) -> (r: &N)
        ensures *r == self.nodes()[i.i()]
    { unimplemented!() }
}
impl<N, E> core::ops::IndexMut<NodeIndex> for DiGraph<N, E> {
    #[verifier::external_body]
    fn index_mut(&mut self, i: NodeIndex) -> (r: &mut N)
        ensures *r == old(self).nodes()[i.i()], final(self).nodes() == old(self).nodes().update(i.i(), *final(r)), final(self).edges() == old(self).edges(),
    { unimplemented!() }
}

pub open spec fn edge(e: E2, a: int, b: int) -> bool { e.contains((a, b)) }
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body]
    pub fn node_weights(&self) -> (r: VxIter<&N>)
        ensures r.rest().len() == self.nodes().len(), forall|i: int| 0 <= i < self.nodes().len() ==> *(#[trigger] r.rest()[i]) == self.nodes()[i]
    { unimplemented!() }
    /// node_weights_mut, by position
    #[verifier::external_body]
    pub fn vx_mut_len(&self) -> (r: usize)
        ensures r == self.nodes().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_mut_at(&mut self, i: usize) -> (r: &mut N)
        requires i < old(self).nodes().len()
        ensures *r == old(self).nodes()[i as int], final(self).nodes() == old(self).nodes().update(i as int, *final(r)), final(self).edges() == old(self).edges(),
    { unimplemented!() }
}
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body]
    pub fn node_count(&self) -> (r: usize)
        ensures r == self.nodes().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_count(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: bool)
        ensures self.has(a) && self.has(b) ==> r == edge(self.edges(), a.i(), b.i())
    { unimplemented!() }
}
pub trait VxIndex {
    spec fn vx_ix(self) -> usize;
    fn index(self) -> (r: usize)
        ensures r == self.vx_ix();
}
impl VxIndex for NodeIndex {
    open spec fn vx_ix(self) -> usize { self.ix }
    fn index(self) -> (r: usize) { self.ix }
}
