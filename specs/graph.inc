//@@include graph0.inc
// ------------------------------------------------------------------ reachability
pub open spec fn is_path(e: E2, p: Seq<int>) -> bool { p.len() >= 1 && forall|i: int| 0 <= i < p.len() - 1 ==> edge(e, #[trigger] p[i], p[i + 1]) }
#[verifier::opaque]
pub open spec fn reach(e: E2, a: int, b: int) -> bool { exists|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == a && p.last() == b }
/// v lies on a cycle
#[verifier::opaque]
pub open spec fn cyc(e: E2, v: int) -> bool { exists|w: int| #[trigger] edge(e, v, w) && reach(e, w, v) }
pub open spec fn cyclic(e: E2) -> bool { exists|v: int| cyc(e, v) }
/// v and everything that is mutually reachable with it
pub open spec fn comp(e: E2, v: int) -> ISet<int> { ISet::new(|w: int| reach(e, v, w) && reach(e, w, v)) }
pub open spec fn outs(e: E2, c: ISet<int>) -> ISet<int> { ISet::new(|w: int| !c.contains(w) && exists|u: int| c.contains(u) && #[trigger] edge(e, u, w)) }

pub proof fn reach_refl(e: E2, a: int)
    ensures reach(e, a, a)
{ reveal(is_sccs); reveal(reach); reveal(cyc); assert(is_path(e, seq![a])); }
pub proof fn reach_cons(e: E2, a: int, b: int, c: int)
    requires edge(e, a, b), reach(e, b, c)
    ensures reach(e, a, c)
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    let p = choose|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == b && p.last() == c;
    let q = seq![a] + p;
    assert forall|i: int| 0 <= i < q.len() - 1 implies edge(e, #[trigger] q[i], q[i + 1]) by {
        if i > 0 { assert(q[i] == p[i - 1]); assert(q[i + 1] == p[i]); }
    }
    assert(is_path(e, q)); assert(q.last() == c);
}
pub proof fn reach_split(e: E2, a: int, b: int)
    requires reach(e, a, b)
    ensures a == b || exists|w: int| #[trigger] edge(e, a, w) && reach(e, w, b)
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    let p = choose|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == a && p.last() == b;
    if p.len() > 1 {
        let q = p.drop_first();
        assert forall|i: int| 0 <= i < q.len() - 1 implies edge(e, #[trigger] q[i], q[i + 1]) by { assert(q[i] == p[i + 1]); assert(q[i + 1] == p[i + 2]); }
        assert(is_path(e, q)); assert(q.last() == b);
        assert(edge(e, p[0], p[0int + 1]));
        assert(edge(e, a, q[0]) && reach(e, q[0], b));
    }
}
pub proof fn path_trans(e: E2, p: Seq<int>, b: int, c: int)
    requires is_path(e, p), p.last() == b, reach(e, b, c)
    ensures reach(e, p[0], c)
    decreases p.len()
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    if p.len() > 1 {
        let q = p.drop_first();
        assert forall|i: int| 0 <= i < q.len() - 1 implies edge(e, #[trigger] q[i], q[i + 1]) by { assert(q[i] == p[i + 1]); assert(q[i + 1] == p[i + 2]); }
        path_trans(e, q, b, c);
        assert(edge(e, p[0], p[0int + 1]));
        reach_cons(e, p[0], q[0], c);
    }
}
pub proof fn reach_trans(e: E2, a: int, b: int, c: int)
    requires reach(e, a, b), reach(e, b, c)
    ensures reach(e, a, c)
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    let p = choose|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == a && p.last() == b;
    path_trans(e, p, b, c);
}
/// all the edges turned round
pub open spec fn flip(e: E2) -> E2 { e.map_values(|p: (int, int)| (p.1, p.0)) }
pub proof fn flip_edge(e: E2, a: int, b: int)
    ensures edge(flip(e), a, b) <==> edge(e, b, a)
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    if edge(flip(e), a, b) { let k = choose|k: int| 0 <= k < flip(e).len() && flip(e)[k] == (a, b); assert(e[k] == (b, a)); }
    if edge(e, b, a) { let k = choose|k: int| 0 <= k < e.len() && e[k] == (b, a); assert(flip(e)[k] == (a, b)); }
}
pub proof fn flip_reach(e: E2, a: int, b: int)
    requires reach(flip(e), a, b)
    ensures reach(e, b, a)
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    let p = choose|p: Seq<int>| #[trigger] is_path(flip(e), p) && p[0] == a && p.last() == b;
    let q = Seq::new(p.len(), |i: int| p[p.len() - 1 - i]);
    assert forall|i: int| 0 <= i < q.len() - 1 implies edge(e, #[trigger] q[i], q[i + 1]) by {
        let j = p.len() - 2 - i;
        assert(edge(flip(e), p[j], p[j + 1]));
        flip_edge(e, p[j], p[j + 1]);
    }
    assert(is_path(e, q)); assert(q[0] == b); assert(q.last() == a);
}
pub proof fn flip_acyclic(e: E2)
    requires !cyclic(e)
    ensures !cyclic(flip(e))
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    if cyclic(flip(e)) {
        let v = choose|v: int| cyc(flip(e), v);
        let w = choose|w: int| #[trigger] edge(flip(e), v, w) && reach(flip(e), w, v);
        flip_edge(e, v, w); flip_reach(e, w, v);
        // edge w -> v and v ~> w
        assert(edge(e, w, v) && reach(e, v, w));
        assert(cyc(e, w));
    }
}
/// a graph as petgraph's visitors see it
pub struct Reversed<G>(pub G);
pub trait VxView { spec fn vn(&self) -> nat; spec fn ve(&self) -> E2; }
impl<'a, N, E> VxView for &'a DiGraph<N, E> {
    open spec fn vn(&self) -> nat { self.nodes().len() }
    open spec fn ve(&self) -> E2 { self.edges() }
}
impl<'a, N, E> VxView for Reversed<&'a DiGraph<N, E>> {
    open spec fn vn(&self) -> nat { self.0.nodes().len() }
    open spec fn ve(&self) -> E2 { flip(self.0.edges()) }
}
/// petgraph::visit::Topo: visits a node once all its predecessors have been visited; visits all of an acyclic graph
#[verifier::external_body]
pub struct Topo { x: u8 }
impl Topo {
    pub uninterp spec fn n(&self) -> nat;
    pub uninterp spec fn e(&self) -> E2;
    pub uninterp spec fn seen(&self) -> ISet<int>;
    /// nodes not visited yet
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn new<G: VxView>(g: G) -> (r: Topo)
        ensures r.n() == g.vn(), r.e() == g.ve(), r.seen() == ISet::<int>::empty(), r.left() == g.vn()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next<G: VxView>(&mut self, g: G) -> (r: Option<NodeIndex>)
        requires g.vn() == old(self).n(), g.ve() == old(self).e()
        ensures
            final(self).n() == old(self).n(), final(self).e() == old(self).e(),
            match r {
                Some(v) => {
                    &&& v.i() < old(self).n() && !old(self).seen().contains(v.i())
                    &&& forall|u: int| #[trigger] edge(old(self).e(), u, v.i()) ==> old(self).seen().contains(u)
                    &&& final(self).seen() == old(self).seen().insert(v.i())
                    &&& final(self).left() + 1 == old(self).left()
                }
                None => final(self).seen() == old(self).seen() && (!cyclic(old(self).e()) ==> forall|v: int| 0 <= v < old(self).n() ==> #[trigger] old(self).seen().contains(v)),
            },
    { unimplemented!() }
}
pub open spec fn vv(s: Seq<Vec<NodeIndex>>) -> Seq<Seq<NodeIndex>> { s.map_values(|v: Vec<NodeIndex>| v@) }
/// the strongly connected components, callees first
#[verifier::opaque]
pub open spec fn is_sccs(e: E2, n: nat, s: Seq<Seq<NodeIndex>>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() > 0
    &&& forall|j: int, k: int| 0 <= j < s.len() && 0 <= k < s[j].len() ==> (#[trigger] s[j][k]).i() < n
    &&& forall|v: int| 0 <= v < n ==> #[trigger] member(s, v)
    &&& forall|j: int, k: int, j2: int, k2: int| 0 <= j < s.len() && 0 <= k < s[j].len() && 0 <= j2 < s.len() && 0 <= k2 < s[j2].len() && (#[trigger] s[j][k]).i() == (#[trigger] s[j2][k2]).i() ==> j == j2 && k == k2
    &&& forall|j: int, k: int, k2: int| 0 <= j < s.len() && 0 <= k < s[j].len() && 0 <= k2 < s[j].len() ==> reach(e, (#[trigger] s[j][k]).i(), (#[trigger] s[j][k2]).i())
    &&& forall|j: int, k: int, j2: int, k2: int| 0 <= j < s.len() && 0 <= k < s[j].len() && 0 <= j2 < s.len() && 0 <= k2 < s[j2].len() && edge(e, (#[trigger] s[j][k]).i(), (#[trigger] s[j2][k2]).i()) ==> j2 <= j
}
pub open spec fn member(s: Seq<Seq<NodeIndex>>, v: int) -> bool { exists|j: int| 0 <= j < s.len() && at(#[trigger] s[j], v) }
pub mod algo {
    use super::*;
    #[verifier::external_body]
    pub fn is_cyclic_directed<G: VxView>(g: G) -> (r: bool)
        ensures r == cyclic(g.ve())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn kosaraju_scc<G: VxView>(g: G) -> (r: Vec<Vec<NodeIndex>>)
        ensures is_sccs(g.ve(), g.vn(), vv(r@))
    { unimplemented!() }
}
/// everything reached from a component lies in it or in an earlier one
pub proof fn scc_down(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, p: Seq<int>, i: int, j: int)
    requires is_sccs(e, n, s), is_path(e, p), forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < n, 0 <= i < s.len(), 0 <= j < s.len(), at(s[i], p[0]), at(s[j], p.last())
    ensures j <= i
    decreases p.len()
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    let k0 = choose|k: int| 0 <= k < s[i].len() && (#[trigger] s[i][k]).i() == p[0];
    if p.len() == 1 {
        let k1 = choose|k: int| 0 <= k < s[j].len() && (#[trigger] s[j][k]).i() == p[0];
    } else {
        let q = p.drop_first();
        assert forall|k: int| 0 <= k < q.len() - 1 implies edge(e, #[trigger] q[k], q[k + 1]) by { assert(q[k] == p[k + 1]); assert(q[k + 1] == p[k + 2]); }
        assert(member(s, p[1]));
        let i1 = choose|x: int| 0 <= x < s.len() && at(#[trigger] s[x], p[1]);
        let k1 = choose|k: int| 0 <= k < s[i1].len() && (#[trigger] s[i1][k]).i() == p[1];
        assert(edge(e, p[0], p[0int + 1]));
        assert(edge(e, s[i][k0].i(), s[i1][k1].i()));
        assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < n by { assert(q[k] == p[k + 1]); }
        scc_down(e, n, s, q, i1, j);
    }
}
pub proof fn path_in(e: E2, n: nat, p: Seq<int>)
    requires is_path(e, p), 0 <= p[0] < n, forall|a: int, b: int| #[trigger] edge(e, a, b) ==> 0 <= b < n
    ensures forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < n
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < n by {
        if k > 0 { assert(edge(e, p[k - 1], p[k - 1 + 1])); }
    }
}
/// the components of the contract are the components of the graph
pub proof fn scc_comp(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, i: int, v: int)
    requires is_sccs(e, n, s), 0 <= i < s.len(), at(s[i], v), forall|a: int, b: int| #[trigger] edge(e, a, b) ==> 0 <= b < n
    ensures forall|m: int| #[trigger] comp(e, v).contains(m) <==> at(s[i], m)
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    let kv = choose|k: int| 0 <= k < s[i].len() && (#[trigger] s[i][k]).i() == v;
    assert forall|m: int| #[trigger] comp(e, v).contains(m) <==> at(s[i], m) by {
        if at(s[i], m) {
            let km = choose|k: int| 0 <= k < s[i].len() && (#[trigger] s[i][k]).i() == m;
            assert(reach(e, s[i][kv].i(), s[i][km].i()));
            assert(reach(e, s[i][km].i(), s[i][kv].i()));
        }
        if comp(e, v).contains(m) {
            let p = choose|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == v && p.last() == m;
            let q = choose|q: Seq<int>| #[trigger] is_path(e, q) && q[0] == m && q.last() == v;
            path_in(e, n, p);
            assert(0 <= p[p.len() - 1] < n);
            path_in(e, n, q);
            assert(member(s, m));
            let j = choose|x: int| 0 <= x < s.len() && at(#[trigger] s[x], m);
            scc_down(e, n, s, p, i, j);
            scc_down(e, n, s, q, j, i);
            assert(i == j);
        }
    }
}
/// a component is a cycle iff it has several members or a self edge
pub proof fn scc_cyc(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, i: int, v: int)
    requires is_sccs(e, n, s), 0 <= i < s.len(), at(s[i], v), forall|a: int, b: int| #[trigger] edge(e, a, b) ==> 0 <= b < n
    ensures cyc(e, v) <==> (s[i].len() > 1 || edge(e, v, v))
{ reveal(is_sccs); reveal(reach); reveal(cyc);
    scc_comp(e, n, s, i, v);
    let kv = choose|k: int| 0 <= k < s[i].len() && (#[trigger] s[i][k]).i() == v;
    if s[i].len() > 1 {
        let ku = if kv == 0 { 1int } else { 0int };
        let u = s[i][ku].i();
        assert(s[i][ku].i() == s[i][kv].i() ==> ku == kv);
        assert(reach(e, s[i][kv].i(), s[i][ku].i()));
        assert(reach(e, s[i][ku].i(), s[i][kv].i()));
        reach_split(e, v, u);
        let w = choose|w: int| #[trigger] edge(e, v, w) && reach(e, w, u);
        reach_trans(e, w, u, v);
    }
    if edge(e, v, v) { reach_refl(e, v); }
    if cyc(e, v) {
        let w = choose|w: int| #[trigger] edge(e, v, w) && reach(e, w, v);
        reach_refl(e, w); reach_cons(e, v, w, w);
        assert(comp(e, v).contains(w));
        let kw = choose|k: int| 0 <= k < s[i].len() && (#[trigger] s[i][k]).i() == w;
        if s[i].len() == 1 { assert(kw == kv); }
    }
}
