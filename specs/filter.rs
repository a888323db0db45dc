//@@spec block_filter
    requires
        g.wf(),
        forall|k: VxStr| #[trigger] indices.m().contains_key(k) ==> g.has(indices.m()[k]),
    ensures
        args.start is None ==> ret.0 == g && ret.1 == indices, //#C08 without a start point nothing is filtered
        args.start is Some && sel(indices.m(), args.start->0) is None ==> ret.0 == g, //#C08 no match or several matches: nothing is filtered
        args.start is Some && sel(indices.m(), args.start->0) is Some ==> kept(g, sel(indices.m(), args.start->0)->0.i(), ret.0), //#C08 exactly what is reachable from the start point is kept
//@@proof block_filter.entry
    let ghost g0 = g;
    let ghost ind0 = indices.m();
    let ghost e = g.edges();
    let ghost n = g.nodes().len();
//@@proof block_filter.0.before
    let ghost ks = vx_it_L0.rest();
    let ghost mut k = 0int;
//@@inv block_filter.0
    invariant
        0 <= k <= ks.len(), vx_it_L0.rest() =~= ks.skip(k),
        forall|v: NodeIndex| #[trigger] vx_v_L0.m().contains_key(v) <==> hit(ks, k, start@, v), //#C08 exactly the functions with a symbol whose demangled path equals the start point are collected
    ensures
        k == ks.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_filter.0.top
    proof { if k < ks.len() { assert(ks.skip(k)[0] == ks[k]); assert(ks.skip(k).drop_first() =~= ks.skip(k + 1)); hit_step(ks, k, start@); k = k + 1; } }
//@@proof block_filter.0.after
    proof { hits_ok(ks, indices.m(), start@, vx_v_L0.m()); }
//@@proof block_filter.1.before
    let ghost s0 = start.i();
    proof { assert(sel(indices.m(), args.start->0) == Some(start)); }
    let ghost mut w = Seq::<int>::empty();
    proof { edges_in(g); }
//@@inv block_filter.1
    invariant
        args.start is Some, sel(indices.m(), args.start->0) == Some(start), s0 == start.i(), ind0 == indices.m(),
        g == g0, e == g.edges(), n == g.nodes().len(), n <= usize::MAX, edges_ok(e, n), s0 < n,
        dfs.e() == e, dfs.n() == n, dfs.start() == s0,
        rel(one2two.m(), w, n), copies(g.nodes(), g2.nodes(), w), //#C08 every function is copied once, unchanged
        edges_ok(g2.edges(), w.len()),
        forall|j: int| 0 <= j < w.len() ==> reach(e, s0, #[trigger] w[j]), //#C08 only reachable functions are copied
        st(e, g2.edges(), w, dfs.seen()), //#C08 exactly the edges of the visited functions are copied
    ensures
        forall|v: int| #[trigger] reach(e, s0, v) ==> dfs.seen().contains(v),
    decreases dfs.left(),
//@@proof block_filter.1.top
    let ghost seen0 = dfs.seen();
//@@proof block_filter.2.before
    let ghost c = caller1.i();
    let ghost i0 = caller2.i();
    proof {
        if g2.nodes().len() > w.len() { grow(e, g2.edges(), w, seen0, c); w = w.push(c); }
        row_start(e, g2.edges(), w, seen0, c, i0, ni(callees.rest()));
    }
//@@inv block_filter.2
    invariant
        g == g0, e == g.edges(), n == g.nodes().len(), n <= usize::MAX, edges_ok(e, n), s0 < n, 0 <= c < n,
        callees.e() == e, i0 == caller2.i(), 0 <= i0 < w.len(), w[i0] == c, !seen0.contains(c), reach(e, s0, c),
        forall|q: int| 0 <= q < callees.rest().len() ==> edge(e, c, (#[trigger] callees.rest()[q]).1.i()),
        rel(one2two.m(), w, n), copies(g.nodes(), g2.nodes(), w), //#C08 every function is copied once, unchanged
        edges_ok(g2.edges(), w.len()),
        forall|j: int| 0 <= j < w.len() ==> reach(e, s0, #[trigger] w[j]), //#C08 only reachable functions are copied
        row(e, g2.edges(), w, seen0, c, i0, ni(callees.rest())), //#C08 every call edge of the function is copied, none is added
    ensures
        callees.rest().len() == 0,
    decreases callees.rest().len(),
//@@proof block_filter.2.top
    let ghost r0 = callees.rest();
    let ghost old2 = g2;
    proof {
        if r0.len() > 0 {
            assert(edge(e, c, r0[0].1.i()));
            reach_refl(e, r0[0].1.i()); reach_cons(e, c, r0[0].1.i(), r0[0].1.i()); reach_trans(e, s0, c, r0[0].1.i());
        }
    }
//@@proof block_filter.2.end
    proof {
        let b = r0[0].1.i();
        let e2 = old2.edges();
        assert(ni(r0).drop_first() =~= ni(callees.rest()));
        assert(ni(r0)[0].i() == b);
        let mut w2 = w;
        if g2.nodes().len() > w.len() { grow_row(e, e2, w, seen0, c, i0, ni(r0), b); w2 = w.push(b); }
        assert(ix(b) == r0[0].1);
        let j = one2two.m()[ix(b)].i();
        row_step(e, e2, w2, seen0, c, i0, ni(r0), j);
        w = w2;
    }
//@@proof block_filter.1.after
    proof {
        assert(filtered(g0, s0, g2, w));
        assert(kept(g0, s0, g2));
    }
//@@proof block_filter.2.after
    proof { row_end(e, g2.edges(), w, seen0, c, i0, ni(callees.rest())); }
//@@code
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
use vstd::std_specs::cmp::*;
verus! {
//@@include iter.inc
//@@include strs.inc
//@@include maps.inc
//@@include utf8.inc
//@@include dehash.inc
//@@include graph.inc
//@@include ecount.inc
//@@include demangle.inc
impl VxBorrow<NodeIndex> for NodeIndex { open spec fn vx_key(&self) -> NodeIndex { *self } }
/// command line
pub struct Args { pub start: Option<VxStr> }
//@@insert Local
//@@insert Max
//@@insert Node
impl Clone for Node {
    #[verifier::external_body]
    fn clone(&self) -> (r: Node)
        ensures r == *self
    { unimplemented!() }
}
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.nodes() == Seq::<N>::empty(), r.edges() == Seq::<(int, int)>::empty()
    { unimplemented!() }
}
/// petgraph::visit::Dfs: visits every node reachable from the start once
#[verifier::external_body]
pub struct Dfs { x: u8 }
impl Dfs {
    pub uninterp spec fn n(&self) -> nat;
    pub uninterp spec fn e(&self) -> E2;
    pub uninterp spec fn start(&self) -> int;
    pub uninterp spec fn seen(&self) -> ISet<int>;
    /// nodes not visited yet
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn new<G: VxView>(g: G, s: NodeIndex) -> (r: Dfs)
        requires s.i() < g.vn()
        ensures r.n() == g.vn(), r.e() == g.ve(), r.start() == s.i(), r.seen() == ISet::<int>::empty(), r.left() == g.vn()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next<G: VxView>(&mut self, g: G) -> (r: Option<NodeIndex>)
        requires g.vn() == old(self).n(), g.ve() == old(self).e()
        ensures
            final(self).n() == old(self).n(), final(self).e() == old(self).e(), final(self).start() == old(self).start(),
            match r {
                Some(v) => {
                    &&& v.i() < old(self).n() && !old(self).seen().contains(v.i())
                    &&& reach(old(self).e(), old(self).start(), v.i())
                    &&& final(self).seen() == old(self).seen().insert(v.i())
                    &&& final(self).left() + 1 == old(self).left()
                }
                None => final(self).seen() == old(self).seen() && forall|v: int| #[trigger] reach(old(self).e(), old(self).start(), v) ==> old(self).seen().contains(v),
            },
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct EdgeIndex { pub ix: usize }
/// petgraph's WalkNeighbors: every edge to a neighbour once
#[verifier::external_body]
pub struct VxWalk { x: u8 }
impl VxWalk {
    pub uninterp spec fn rest(&self) -> Seq<(EdgeIndex, NodeIndex)>;
    pub uninterp spec fn e(&self) -> E2;
    #[verifier::external_body]
    pub fn next<G: VxView>(&mut self, g: G) -> (r: Option<(EdgeIndex, NodeIndex)>)
        requires g.ve() == old(self).e()
        ensures
            final(self).e() == old(self).e(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}
pub open spec fn ni(s: Seq<(EdgeIndex, NodeIndex)>) -> Seq<NodeIndex> { s.map_values(|p: (EdgeIndex, NodeIndex)| p.1) }
/// what comes out of neighbors(..), to be walked
#[verifier::external_body]
pub struct VxNbrs { x: u8 }
impl VxNbrs {
    pub uninterp spec fn e(&self) -> E2;
    pub uninterp spec fn c(&self) -> int;
    #[verifier::external_body]
    pub fn detach(&self) -> (r: VxWalk)
        ensures
            r.e() == self.e(),
            forall|q: int| 0 <= q < r.rest().len() ==> edge(self.e(), self.c(), (#[trigger] r.rest()[q]).1.i()),
            forall|b: int| nc(ni(r.rest()), b) == #[trigger] ec(self.e(), self.c(), b),
    { unimplemented!() }
}
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body]
    pub fn vx_neighbors(&self, n: NodeIndex) -> (r: VxNbrs)
        ensures r.e() == self.edges(), r.c() == n.i()
    { unimplemented!() }
}
// ------------------------------------------------------------------ C08
pub open spec fn edges_ok(e: E2, n: nat) -> bool { forall|a: int, b: int| #[trigger] edge(e, a, b) ==> 0 <= a < n && 0 <= b < n }
proof fn edges_in(g: DiGraph<Node, ()>)
    requires g.wf()
    ensures edges_ok(g.edges(), g.nodes().len())
{
    let e = g.edges();
    assert forall|a: int, b: int| #[trigger] edge(e, a, b) implies 0 <= a < g.nodes().len() && 0 <= b < g.nodes().len() by { let k = choose|k: int| 0 <= k < e.len() && e[k] == (a, b); }
}
/// the symbol k has the demangled path p
pub open spec fn has_path(k: VxStr, p: Seq<char>) -> bool { hashed(dem(k@)) && path(dem(k@)) == p }
/// a symbol of function v has path p
pub open spec fn named(m: IMap<VxStr, NodeIndex>, p: Seq<char>, v: NodeIndex) -> bool { exists|k: VxStr| #[trigger] m.contains_key(k) && has_path(k, p) && m[k] == v }
/// v is the only function with path p
pub open spec fn only(m: IMap<VxStr, NodeIndex>, p: Seq<char>, v: NodeIndex) -> bool { named(m, p, v) && forall|k: VxStr| #[trigger] m.contains_key(k) && has_path(k, p) ==> m[k] == v }
/// the start point: the function of that name, or the only function with that path
pub open spec fn sel(m: IMap<VxStr, NodeIndex>, s: VxStr) -> Option<NodeIndex> {
    if m.contains_key(s) { Some(m[s]) }
    else if exists|v: NodeIndex| #[trigger] only(m, s@, v) { Some(choose|v: NodeIndex| #[trigger] only(m, s@, v)) }
    else { None }
}
/// g2 is what is reachable from s: function j of g2 is function w[j] of g
pub open spec fn filtered(g: DiGraph<Node, ()>, s: int, g2: DiGraph<Node, ()>, w: Seq<int>) -> bool {
    &&& w.len() == g2.nodes().len()
    &&& forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && #[trigger] w[i] == #[trigger] w[j] ==> i == j
    &&& forall|j: int| 0 <= j < w.len() ==> 0 <= (#[trigger] w[j]) < g.nodes().len() && reach(g.edges(), s, w[j]) && g2.nodes()[j] == g.nodes()[w[j]]
    &&& forall|v: int| #[trigger] reach(g.edges(), s, v) ==> w.contains(v)
    &&& forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() ==> #[trigger] ec(g2.edges(), i, j) == ec(g.edges(), w[i], w[j])
    &&& edges_ok(g2.edges(), w.len())
}
pub open spec fn kept(g: DiGraph<Node, ()>, s: int, g2: DiGraph<Node, ()>) -> bool { exists|w: Seq<int>| #[trigger] filtered(g, s, g2, w) }
pub open spec fn ix(i: int) -> NodeIndex { NodeIndex { ix: i as usize } }
pub open spec fn rel(m: IMap<NodeIndex, NodeIndex>, w: Seq<int>, n: nat) -> bool {
    &&& forall|j: int| 0 <= j < w.len() ==> 0 <= (#[trigger] w[j]) < n && m.contains_key(ix(w[j])) && m[ix(w[j])].i() == j
    &&& forall|a: NodeIndex| #[trigger] m.contains_key(a) ==> a.i() < n && m[a].i() < w.len() && w[m[a].i()] == a.i()
}
pub open spec fn copies(a: Seq<Node>, b: Seq<Node>, w: Seq<int>) -> bool { b.len() == w.len() && forall|j: int| 0 <= j < w.len() ==> (#[trigger] b[j]) == a[w[j]] }
/// exactly the functions in `seen` have their edges
pub open spec fn st(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>) -> bool {
    &&& forall|v: int| #[trigger] seen.contains(v) ==> w.contains(v)
    &&& forall|v: int, b: int| seen.contains(v) && #[trigger] edge(e, v, b) ==> w.contains(b)
    &&& forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() ==> #[trigger] ec(e2, i, j) == (if seen.contains(w[i]) { ec(e, w[i], w[j]) } else { 0 })
}
/// the same, with `rest` of the edges of function c (i0) to come
pub open spec fn row(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>, c: int, i0: int, rest: Seq<NodeIndex>) -> bool {
    &&& forall|v: int| #[trigger] seen.contains(v) ==> w.contains(v)
    &&& forall|v: int, b: int| seen.contains(v) && #[trigger] edge(e, v, b) ==> w.contains(b)
    &&& forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != i0 ==> #[trigger] ec(e2, i, j) == (if seen.contains(w[i]) { ec(e, w[i], w[j]) } else { 0 })
    &&& forall|j: int| 0 <= j < w.len() ==> #[trigger] ec(e2, i0, j) + nc(rest, w[j]) == ec(e, c, w[j])
    &&& forall|b: int| !w.contains(b) ==> #[trigger] nc(rest, b) == ec(e, c, b)
}
proof fn w_push(w: Seq<int>, b: int)
    ensures forall|v: int| w.contains(v) ==> #[trigger] w.push(b).contains(v), w.push(b).contains(b)
{
    assert forall|v: int| w.contains(v) implies #[trigger] w.push(b).contains(v) by { let k = choose|k: int| 0 <= k < w.len() && w[k] == v; assert(w.push(b)[k] == v); }
    assert(w.push(b)[w.len() as int] == b);
}
proof fn grow(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>, b: int)
    requires st(e, e2, w, seen), edges_ok(e2, w.len()), !w.contains(b)
    ensures st(e, e2, w.push(b), seen), edges_ok(e2, w.len() + 1)
{
    let w2 = w.push(b);
    w_push(w, b);
    assert forall|i: int, j: int| 0 <= i < w2.len() && 0 <= j < w2.len() implies #[trigger] ec(e2, i, j) == (if seen.contains(w2[i]) { ec(e, w2[i], w2[j]) } else { 0 }) by {
        ec_edge(e2, i, j);
        if i == w.len() { } else if j == w.len() { ec_edge(e, w[i], b); } else { assert(w2[i] == w[i] && w2[j] == w[j]); }
    }
}
proof fn grow_row(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>, c: int, i0: int, rest: Seq<NodeIndex>, b: int)
    requires row(e, e2, w, seen, c, i0, rest), edges_ok(e2, w.len()), !w.contains(b), 0 <= i0 < w.len()
    ensures row(e, e2, w.push(b), seen, c, i0, rest), edges_ok(e2, w.len() + 1)
{
    let w2 = w.push(b);
    w_push(w, b);
    assert forall|i: int, j: int| 0 <= i < w2.len() && 0 <= j < w2.len() && i != i0 implies #[trigger] ec(e2, i, j) == (if seen.contains(w2[i]) { ec(e, w2[i], w2[j]) } else { 0 }) by {
        ec_edge(e2, i, j);
        if i == w.len() { } else if j == w.len() { ec_edge(e, w[i], b); } else { assert(w2[i] == w[i] && w2[j] == w[j]); }
    }
    assert forall|j: int| 0 <= j < w2.len() implies #[trigger] ec(e2, i0, j) + nc(rest, w2[j]) == ec(e, c, w2[j]) by {
        ec_edge(e2, i0, j);
        if j < w.len() { assert(w2[j] == w[j]); }
    }
    assert forall|x: int| !w2.contains(x) implies #[trigger] nc(rest, x) == ec(e, c, x) by { }
}
proof fn row_start(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>, c: int, i0: int, rest: Seq<NodeIndex>)
    requires st(e, e2, w, seen), 0 <= i0 < w.len(), w[i0] == c, !seen.contains(c), forall|b: int| nc(rest, b) == #[trigger] ec(e, c, b)
    ensures row(e, e2, w, seen, c, i0, rest)
{
    assert forall|j: int| 0 <= j < w.len() implies #[trigger] ec(e2, i0, j) + nc(rest, w[j]) == ec(e, c, w[j]) by { assert(nc(rest, w[j]) == ec(e, c, w[j])); }
    assert forall|b: int| !w.contains(b) implies #[trigger] nc(rest, b) == ec(e, c, b) by { assert(nc(rest, b) == ec(e, c, b)); }
}
proof fn row_step(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>, c: int, i0: int, rest: Seq<NodeIndex>, j: int)
    requires row(e, e2, w, seen, c, i0, rest), rest.len() > 0, 0 <= j < w.len(), 0 <= i0 < w.len(), w[j] == rest[0].i(), edges_ok(e2, w.len()),
        forall|x: int, y: int| 0 <= x < w.len() && 0 <= y < w.len() && #[trigger] w[x] == #[trigger] w[y] ==> x == y,
    ensures row(e, e2.push((i0, j)), w, seen, c, i0, rest.drop_first()), edges_ok(e2.push((i0, j)), w.len())
{
    let f = e2.push((i0, j));
    ec_push(e2, (i0, j));
    assert forall|x: int| 0 <= x < w.len() implies #[trigger] ec(f, i0, x) + nc(rest.drop_first(), w[x]) == ec(e, c, w[x]) by {
        assert(ec(e2, i0, x) + nc(rest, w[x]) == ec(e, c, w[x]));
        if x != j { assert(w[x] != w[j]); }
    }
    assert forall|x: int, y: int| 0 <= x < w.len() && 0 <= y < w.len() && x != i0 implies #[trigger] ec(f, x, y) == (if seen.contains(w[x]) { ec(e, w[x], w[y]) } else { 0 }) by { assert(ec(f, x, y) == ec(e2, x, y)); }
    assert forall|b: int| !w.contains(b) implies #[trigger] nc(rest.drop_first(), b) == ec(e, c, b) by { assert(nc(rest, b) == ec(e, c, b)); assert(w[j] != b); }
    assert forall|a: int, b: int| #[trigger] edge(f, a, b) implies 0 <= a < w.len() && 0 <= b < w.len() by { ec_edge(f, a, b); ec_edge(e2, a, b); assert(ec(f, a, b) == ec(e2, a, b) + (if (i0, j) == (a, b) { 1nat } else { 0nat })); }
}
proof fn row_end(e: E2, e2: E2, w: Seq<int>, seen: ISet<int>, c: int, i0: int, rest: Seq<NodeIndex>)
    requires row(e, e2, w, seen, c, i0, rest), rest.len() == 0, 0 <= i0 < w.len(), w[i0] == c,
        forall|x: int, y: int| 0 <= x < w.len() && 0 <= y < w.len() && #[trigger] w[x] == #[trigger] w[y] ==> x == y,
    ensures st(e, e2, w, seen.insert(c))
{
    let s2 = seen.insert(c);
    assert forall|v: int, b: int| s2.contains(v) && #[trigger] edge(e, v, b) implies w.contains(b) by {
        if v == c && !w.contains(b) { assert(nc(rest, b) == ec(e, c, b)); ec_edge(e, c, b); }
    }
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() implies #[trigger] ec(e2, i, j) == (if s2.contains(w[i]) { ec(e, w[i], w[j]) } else { 0 }) by {
        if i != i0 { assert(w[i] != w[i0]); }
    }
}
/// node v has a symbol with path p among the first k
pub open spec fn hit(ks: Seq<(&VxStr, &NodeIndex)>, k: int, p: Seq<char>, v: NodeIndex) -> bool { exists|i: int| 0 <= i < k && has_path(*(#[trigger] ks[i]).0, p) && *ks[i].1 == v }
proof fn hit_step(ks: Seq<(&VxStr, &NodeIndex)>, k: int, p: Seq<char>)
    requires 0 <= k < ks.len()
    ensures forall|v: NodeIndex| #[trigger] hit(ks, k + 1, p, v) <==> hit(ks, k, p, v) || (has_path(*ks[k].0, p) && *ks[k].1 == v)
{
    assert forall|v: NodeIndex| #[trigger] hit(ks, k + 1, p, v) <==> hit(ks, k, p, v) || (has_path(*ks[k].0, p) && *ks[k].1 == v) by {
        if hit(ks, k, p, v) { let i = choose|i: int| 0 <= i < k && has_path(*(#[trigger] ks[i]).0, p) && *ks[i].1 == v; assert(has_path(*ks[i].0, p)); }
        if has_path(*ks[k].0, p) && *ks[k].1 == v { assert(has_path(*ks[k].0, p)); }
    }
}
proof fn hits_ok(ks: Seq<(&VxStr, &NodeIndex)>, m: IMap<VxStr, NodeIndex>, p: Seq<char>, h: IMap<NodeIndex, &VxStr>)
    requires
        forall|i: int| 0 <= i < ks.len() ==> m.contains_key(*(#[trigger] ks[i]).0) && *ks[i].1 == m[*ks[i].0],
        forall|k: VxStr| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && *(#[trigger] ks[i]).0 == k,
        forall|v: NodeIndex| #[trigger] h.contains_key(v) <==> hit(ks, ks.len() as int, p, v),
    ensures
        forall|v: NodeIndex| h.contains_key(v) && (forall|w: NodeIndex| #[trigger] h.contains_key(w) ==> w == v) ==> #[trigger] only(m, p, v),
        forall|v: NodeIndex, w: NodeIndex| h.contains_key(v) && h.contains_key(w) && v != w ==> !exists|u: NodeIndex| #[trigger] only(m, p, u),
        (forall|v: NodeIndex| !#[trigger] h.contains_key(v)) ==> !exists|u: NodeIndex| #[trigger] only(m, p, u),
        forall|v: NodeIndex, w: NodeIndex| #[trigger] only(m, p, v) && #[trigger] only(m, p, w) ==> v == w,
        (forall|v: NodeIndex, w: NodeIndex| #[trigger] h.contains_key(v) && #[trigger] h.contains_key(w) ==> v == w) ==> forall|v: NodeIndex| #[trigger] h.contains_key(v) ==> only(m, p, v),
{
    assert forall|v: NodeIndex| #[trigger] h.contains_key(v) implies named(m, p, v) by {
        let i = choose|i: int| 0 <= i < ks.len() && has_path(*(#[trigger] ks[i]).0, p) && *ks[i].1 == v;
        assert(m.contains_key(*ks[i].0));
    }
    assert forall|k: VxStr| #[trigger] m.contains_key(k) && has_path(k, p) implies h.contains_key(m[k]) by {
        let i = choose|i: int| 0 <= i < ks.len() && *(#[trigger] ks[i]).0 == k;
        assert(has_path(*ks[i].0, p));
        assert(hit(ks, ks.len() as int, p, m[k]));
    }
    assert forall|v: NodeIndex, w: NodeIndex| #[trigger] only(m, p, v) && #[trigger] only(m, p, w) implies v == w by {
        let a = choose|k: VxStr| #[trigger] m.contains_key(k) && has_path(k, p) && m[k] == v;
        assert(named(m, p, v));
        assert(m.contains_key(a));
    }
    assert forall|v: NodeIndex, w: NodeIndex| h.contains_key(v) && h.contains_key(w) && v != w implies !exists|u: NodeIndex| #[trigger] only(m, p, u) by {
        if exists|u: NodeIndex| #[trigger] only(m, p, u) {
            let u = choose|u: NodeIndex| #[trigger] only(m, p, u);
            let a = choose|k: VxStr| #[trigger] m.contains_key(k) && has_path(k, p) && m[k] == v;
            let b = choose|k: VxStr| #[trigger] m.contains_key(k) && has_path(k, p) && m[k] == w;
            assert(named(m, p, v) && named(m, p, w));
            assert(m.contains_key(a) && m.contains_key(b));
            assert(m[a] == u && m[b] == u);
        }
    }
}
//@@include dehash_fn.inc
//@@insert block_filter
fn main() {}
}
