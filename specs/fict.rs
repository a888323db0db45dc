// C10: the nodes of function pointers
//@@spec fn_Node
    ensures
        ret.name == name.vx_s(), ret.max is None, ret.dashed == dashed,
        stack is None ==> ret.local is Unknown, stack is Some ==> ret.local == Local::Exact(stack->0),
//@@spec block_fict
    requires
        pre(g, indirects.m(), fmts.s()),
    ensures
        exists|V: Option<VxStr>, pn: Pos<'a>, qn: Pos<'a>| is_void(indirects.m(), V) && #[trigger] placed(world(g, indirects.m(), fmts.s(), has_untyped_symbols, V), all_keys(indirects.m()), pn, qn, ret.nodes(), ret.edges()), //#C10 one dashed node per called signature, with the callers, the candidates and `?`
        ret.wf(),
//@@proof block_fict.entry
    let ghost g0 = g;
//@@proof block_fict.0.before
    let ghost ks = vx_it_L0.rest();
    let ghost mut k = 0int;
//@@inv block_fict.0
    invariant
        0 <= k <= ks.len(), vx_it_L0.rest() =~= ks.skip(k),
        forall|v: &VxStr| vx_v_L0@.contains(v) <==> #[trigger] void_among(ks, k, *v), //#C10 the candidates for `fmt::Void`
        vx_v_L0@.len() == 0 ==> (forall|i: int| 0 <= i < k ==> no_void(*#[trigger] ks[i])),
        vx_v_L0@.len() == 1 ==> (exists|i: int| 0 <= i < k && one_void(*#[trigger] ks[i], *vx_v_L0@[0]) && forall|j: int| 0 <= j < k && j != i ==> no_void(*#[trigger] ks[j])),
        vx_v_L0@.len() >= 2 ==> (exists|i: int, j: int| 0 <= i < j < k && !no_void(*#[trigger] ks[i]) && !no_void(*#[trigger] ks[j])),
    ensures
        k == ks.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_fict.0.top
    let ghost v0 = vx_v_L0@;
    proof { if k < ks.len() { assert(ks.skip(k)[0] == ks[k]); assert(ks.skip(k).drop_first() =~= ks.skip(k + 1)); shape(*ks[k]); k = k + 1; } }
//@@proof block_fict.0.end
    proof { assert(forall|v: &VxStr| #[trigger] void_among(ks, k, *v) <==> void_among(ks, k - 1, *v) || one_void(*ks[k - 1], *v)); 
        if vx_v_L0@ != v0 { let x = vx_v_L0@.last(); assert(vx_v_L0@ =~= v0.push(x)); assert(one_void(*ks[k - 1], *x)); assert forall|v: &VxStr| vx_v_L0@.contains(v) <==> (v0.contains(v) || v == x) by { if v0.contains(v) { let i = choose|i: int| 0 <= i < v0.len() && v0[i] == v; assert(vx_v_L0@[i] == v); } if v == x { assert(vx_v_L0@[v0.len() as int] == v); } } }
    }
//@@proof block_fict.0.after
    proof { listed(indirects.m(), ks); }
//@@proof block_fict.1.before
    let ghost vs = all_maybe_void@;
    let ghost mut k = 0int;
//@@inv block_fict.1
    invariant
        0 <= k <= vs.len(), vs == all_maybe_void@, vx_it_L1.rest().len() == vs.len() - k, forall|j: int| 0 <= j < vs.len() - k ==> *(#[trigger] vx_it_L1.rest()[j]) == vs[k + j],
        vx_f_L1 is Some ==> vs.contains(vx_f_L1->0) && starts(vx_f_L1->0@, "core::fmt::Void"@), //#C10 a candidate of that name
        vx_f_L1 is None ==> forall|j: int| 0 <= j < k ==> !starts((#[trigger] vs[j])@, "core::fmt::Void"@), //#C10 there is no candidate of that name
    ensures
        k == vs.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_fict.1.top
    proof { if k < vs.len() { assert(*vx_it_L1.rest()[0] == vs[k]); k = k + 1; } }
//@@proof block_fict.2.before
    proof { assert(all_maybe_void@.len() == 1 ==> all_maybe_void@.contains(all_maybe_void@[0])); }
    let ghost V = match one_true_void { Some(x) => Some(*x), None => None };
    let ghost W = world(g, indirects.m(), fmts.s(), has_untyped_symbols, V);
    let ghost ds = vx_it_L2.rest();
    let ghost mut k = 0int;
    let ghost mut pn = IMap::<FnSig<'a>, int>::empty();
    let ghost mut qn = IMap::<FnSig<'a>, int>::empty();
//@@inv block_fict.2
    invariant
        0 <= k <= ds.len(), vx_it_L2.rest() =~= ds.skip(k), g.wf(), g0.nodes().len() <= g.nodes().len(),
        forall|i: int| 0 <= i < ds.len() ==> W.im.contains_key((#[trigger] ds[i]).0) && ds[i].1 == W.im[ds[i].0],
        forall|i: int, j: int| 0 <= i < ds.len() && 0 <= j < ds.len() && (#[trigger] ds[i]).0 == (#[trigger] ds[j]).0 ==> i == j,
        W == world(g0, W.im, fmts.s(), has_untyped_symbols, V), pre(g0, W.im, W.fmts), V == (match one_true_void { Some(x) => Some(*x), None => None }),
        placed(W, done(ds, k), pn, qn, g.nodes(), g.edges()), //#C10 the signatures so far have their nodes and edges
    ensures
        k == ds.len(),
    decreases vx_it_L2.rest().len(),
//@@proof block_fict.2.after
    proof { assert(all_keys(W.im) =~= done(ds, k)); }
//@@proof block_fict.3.before
    let ghost key = ds[k - 1].0;
    let ghost p = call.i();
    let ghost cs = vx_it_L3.rest();
    let ghost mut i = 0int;
    let ghost e1 = g.edges();
    let ghost n2 = g.nodes();
    proof { shape(sig); assert(ds.contains(ds[k - 1])); canon(ds[k - 1].0, sig, V); assert(fp_node(n2[p], key, V)); assert(callees.s() == targets(W, key)); }
//@@inv block_fict.3
    invariant
        0 <= i <= cs.len(), vx_it_L3.rest() =~= cs.skip(i), g.wf(), g.nodes() == n2, p == call.i(), g.has(call),
        forall|j: int| 0 <= j < cs.len() ==> g.has(*#[trigger] cs[j]),
        forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && *(#[trigger] cs[i]) == *(#[trigger] cs[j]) ==> i == j,
        forall|a: int, b: int| #[trigger] ec(g.edges(), a, b) == ec(e1, a, b) + (if b == p && among(cs, i, a) { 1nat } else { 0nat }), //#C10 an edge from every caller so far
    ensures
        i == cs.len(),
    decreases vx_it_L3.rest().len(),
//@@proof block_fict.3.top
    let ghost eo = g.edges();
    proof { if i < cs.len() { assert(cs.skip(i)[0] == cs[i]); assert(cs.skip(i).drop_first() =~= cs.skip(i + 1)); among_step(cs, i); i = i + 1; } }
//@@proof block_fict.3.end
    proof { ec_push(eo, (cs[i - 1].i(), p)); }
//@@proof block_fict.3.after
    let ghost e2 = g.edges();
//@@proof block_fict.4.before
    let ghost q = n2.len() as int;
    let ghost ts = vx_it_L4.rest();
    let ghost mut i = 0int;
    let ghost e3 = g.edges();
    let ghost n3 = g.nodes();
    proof { ec_push(e2, (p, q)); assert(W.untyped ==> e3 == e2.push((p, q))); }
//@@inv block_fict.4
    invariant
        0 <= i <= ts.len(), vx_it_L4.rest() =~= ts.skip(i), g.wf(), g.nodes() == n3, p == call.i(), g.has(call),
        forall|j: int| 0 <= j < ts.len() ==> g.has(*#[trigger] ts[j]),
        forall|i: int, j: int| 0 <= i < ts.len() && 0 <= j < ts.len() && *(#[trigger] ts[i]) == *(#[trigger] ts[j]) ==> i == j,
        forall|a: int, b: int| #[trigger] ec(g.edges(), a, b) == ec(e3, a, b) + (if a == p && among(ts, i, b) { 1nat } else { 0nat }), //#C10 an edge to every candidate so far
    ensures
        i == ts.len(),
    decreases vx_it_L4.rest().len(),
//@@proof block_fict.4.top
    let ghost eo = g.edges();
    proof { if i < ts.len() { assert(ts.skip(i)[0] == ts[i]); assert(ts.skip(i).drop_first() =~= ts.skip(i + 1)); among_step(ts, i); i = i + 1; } }
//@@proof block_fict.4.end
    proof { ec_push(eo, (p, ts[i - 1].i())); }
//@@proof block_fict.4.after
    proof {
        in_set(cs, W.im[key].callers.s()); in_set(ts, targets(W, key));
        placed_step(W, done(ds, k - 1), key, pn, qn, n1, e1, p, q, g.nodes(), g.edges());
        pn = pn.insert(key, p); qn = qn.insert(key, q);
        assert(done(ds, k) =~= done(ds, k - 1).insert(key));
    }
//@@proof block_fict.2.top
    let ghost n1 = g.nodes();
    proof { if k < ds.len() { assert(ds.skip(k)[0] == ds[k]); assert(ds.skip(k).drop_first() =~= ds.skip(k + 1)); shape(ds[k].0); k = k + 1; if !ds[k - 1].1.called { skip_step(W, done(ds, k - 1), done(ds, k), pn, qn, g.nodes(), g.edges(), ds[k - 1].0); } } }
//@@code
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
//@@include strs.inc
//@@include fmt.inc
//@@include iter0.inc
//@@include stops.inc
//@@include maps.inc
//@@include graph0.inc
//@@include ecount.inc
//@@include sets.inc
//@@insert Local
//@@insert Max
//@@insert Node
//@@insert Indirect
//@@insert Type
//@@insert FnSig
//@@include sig.inc
//@@include fmtsig.inc
impl<'a> FnSig<'a> {
    /// what the printer prints (unit sig, C12)
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: VxStr)
        ensures r@ == show_sig(self.ins(), self.out())
    { unimplemented!() }
}
//@@insert fn_Node
// ------------------------------------------------------------------ function pointers
pub type Im<'a> = IMap<FnSig<'a>, Indirect>;
pub type Pos<'a> = IMap<FnSig<'a>, int>;
pub open spec fn known(g: DiGraph<Node, ()>, s: ISet<NodeIndex>) -> bool { forall|n: NodeIndex| #[trigger] s.contains(n) ==> g.has(n) }
pub open spec fn pre<'a>(g: DiGraph<Node, ()>, im: Im<'a>, fmts: ISet<NodeIndex>) -> bool {
    g.wf() && known(g, fmts) && forall|k: FnSig<'a>| #[trigger] im.contains_key(k) ==> known(g, im[k].callers.s()) && known(g, im[k].callees.s())
}
pub open spec fn void_among(ks: Seq<&FnSig>, k: int, v: VxStr) -> bool { exists|i: int| 0 <= i < k && one_void(*#[trigger] ks[i], v) }
pub open spec fn cand<'a>(im: Im<'a>, v: VxStr) -> bool { exists|k: FnSig<'a>| #[trigger] im.contains_key(k) && one_void(k, v) }
/// there is one formatter signature only
pub open spec fn unique<'a>(im: Im<'a>) -> bool { exists|k: FnSig<'a>| #[trigger] im.contains_key(k) && !no_void(k) && forall|l: FnSig<'a>| #[trigger] im.contains_key(l) && !no_void(l) ==> l == k }
/// the type that stands for the erased argument of formatters
pub open spec fn is_void<'a>(im: Im<'a>, V: Option<VxStr>) -> bool {
    match V {
        Some(c) => cand(im, c) && (c@ == "fmt::Void"@ || (!cand(im, lit("fmt::Void")) && (starts(c@, "core::fmt::Void"@) || ((forall|d: VxStr| #[trigger] cand(im, d) ==> !starts(d@, "core::fmt::Void"@)) && unique(im))))),
        None => !cand(im, lit("fmt::Void")) && (forall|d: VxStr| #[trigger] cand(im, d) ==> !starts(d@, "core::fmt::Void"@)) && !unique(im),
    }
}
pub ghost struct World<'a> { pub n0: Seq<Node>, pub e0: E2, pub im: Im<'a>, pub fmts: ISet<NodeIndex>, pub untyped: bool, pub V: Option<VxStr> }
pub open spec fn world<'a>(g: DiGraph<Node, ()>, im: Im<'a>, fmts: ISet<NodeIndex>, untyped: bool, V: Option<VxStr>) -> World<'a> { World { n0: g.nodes(), e0: g.edges(), im, fmts, untyped, V } }
/// the formatter pseudo trait object
pub open spec fn erased(W: World, k: FnSig) -> bool { W.V is Some && one_void(k, W.V->0) }
/// who can be called through the signature
pub open spec fn targets<'a>(W: World<'a>, k: FnSig<'a>) -> ISet<NodeIndex> { if erased(W, k) { W.fmts } else { W.im[k].callees.s() } }
/// the signature printed, then `*`
pub open spec fn label(V: Option<VxStr>, k: FnSig) -> Seq<char> {
    show_sig(if V is Some && one_void(k, V->0) { k.ins().update(0, T::Ptr(Box::new(T::Alias("fmt::Void"@)))) } else { k.ins() }, k.out()).push('*')
}
pub open spec fn fp_node(n: Node, k: FnSig, V: Option<VxStr>) -> bool { n.name@ == label(V, k) && n.local == Local::Exact(0) && n.max is None && n.dashed }
pub open spec fn unknown_node(n: Node) -> bool { n.name@ == "?"@ && n.local is Unknown && n.max is None && !n.dashed }
pub open spec fn nx(a: int) -> NodeIndex { NodeIndex { ix: a as usize } }
pub open spec fn inset(s: ISet<NodeIndex>, a: int) -> bool { 0 <= a <= usize::MAX && s.contains(nx(a)) }
/// the edges of the node p of signature k, q being its `?` node
pub open spec fn want<'a>(W: World<'a>, k: FnSig<'a>, p: int, q: int, a: int, b: int) -> bool {
    (b == p && inset(W.im[k].callers.s(), a)) || (a == p && ((W.untyped && b == q) || inset(targets(W, k), b)))
}
pub open spec fn wanted<'a>(W: World<'a>, pn: Pos<'a>, qn: Pos<'a>, a: int, b: int) -> bool { exists|k: FnSig<'a>| #[trigger] pn.contains_key(k) && want(W, k, pn[k], qn[k], a, b) }
/// the called signatures of ks have their nodes and edges and nothing else has been added
pub open spec fn placed<'a>(W: World<'a>, ks: ISet<FnSig<'a>>, pn: Pos<'a>, qn: Pos<'a>, n: Seq<Node>, e: E2) -> bool {
    &&& W.n0.len() <= n.len() && forall|i: int| 0 <= i < W.n0.len() ==> #[trigger] n[i] == W.n0[i]
    &&& forall|k: FnSig<'a>| #[trigger] pn.contains_key(k) <==> ks.contains(k) && W.im[k].called
    &&& forall|k: FnSig<'a>| #[trigger] pn.contains_key(k) ==> W.n0.len() <= pn[k] < n.len() && fp_node(n[pn[k]], k, W.V)
    &&& forall|k: FnSig<'a>| #[trigger] pn.contains_key(k) && W.untyped ==> W.n0.len() <= qn[k] < n.len() && unknown_node(n[qn[k]])
    &&& forall|k: FnSig<'a>, l: FnSig<'a>| #[trigger] pn.contains_key(k) && #[trigger] pn.contains_key(l) ==> (k != l ==> pn[k] != pn[l]) && (W.untyped ==> (k != l ==> qn[k] != qn[l]) && pn[k] != qn[l])
    &&& forall|i: int| W.n0.len() <= i < n.len() ==> is_new(W, pn, qn, i)
    &&& forall|a: int, b: int| #[trigger] ec(e, a, b) == ec(W.e0, a, b) + (if wanted(W, pn, qn, a, b) { 1nat } else { 0nat })
}
pub open spec fn is_new<'a>(W: World<'a>, pn: Pos<'a>, qn: Pos<'a>, i: int) -> bool { exists|k: FnSig<'a>| #[trigger] pn.contains_key(k) && (i == pn[k] || (W.untyped && i == qn[k])) }
pub open spec fn all_keys<'a>(im: Im<'a>) -> ISet<FnSig<'a>> { ISet::new(|k: FnSig<'a>| im.contains_key(k)) }
pub open spec fn done<'a>(ds: Seq<(FnSig<'a>, Indirect)>, k: int) -> ISet<FnSig<'a>> { ISet::new(|s: FnSig<'a>| exists|i: int| 0 <= i < k && (#[trigger] ds[i]).0 == s) }
pub open spec fn among(s: Seq<&NodeIndex>, k: int, a: int) -> bool { exists|j: int| 0 <= j < k && (#[trigger] s[j]).i() == a }
pub proof fn among_step(s: Seq<&NodeIndex>, k: int)
    requires 0 <= k < s.len()
    ensures forall|a: int| #[trigger] among(s, k + 1, a) <==> among(s, k, a) || a == s[k].i()
{ assert forall|a: int| #[trigger] among(s, k + 1, a) <==> among(s, k, a) || a == s[k].i() by { if a == s[k].i() { assert(s[k].i() == a); } } }
pub proof fn in_set(s: Seq<&NodeIndex>, t: ISet<NodeIndex>)
    requires
        forall|i: int| 0 <= i < s.len() ==> t.contains(*(#[trigger] s[i])),
        forall|k: NodeIndex| #[trigger] t.contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k,
    ensures forall|a: int| #[trigger] among(s, s.len() as int, a) <==> inset(t, a)
{
    assert forall|a: int| #[trigger] among(s, s.len() as int, a) <==> inset(t, a) by {
        if among(s, s.len() as int, a) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).i() == a; assert(*s[j] == nx(a)); }
        if inset(t, a) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == nx(a); assert(s[i].i() == a); }
    }
}
/// the label is made from the signature of the key
pub proof fn canon<'a>(k: FnSig<'a>, s: FnSig<'a>, V: Option<VxStr>)
    requires
        s == k || (V is Some && one_void(k, V->0) && s.output == k.output && s.inputs@.len() == 2 && s.inputs@[1] == k.inputs@[1] && s.inputs@[0].t() == T::Ptr(Box::new(T::Alias("fmt::Void"@)))),
        s == k && V is Some && one_void(k, V->0) ==> V->0@ == "fmt::Void"@,
    ensures show_sig(s.ins(), s.out()).push('*') == label(V, k)
{
    ts_at(k.inputs@); ts_at(s.inputs@);
    if V is Some && one_void(k, V->0) { assert(s.ins() =~= k.ins().update(0, T::Ptr(Box::new(T::Alias("fmt::Void"@))))); }
}
pub proof fn skip_step<'a>(W: World<'a>, a: ISet<FnSig<'a>>, b: ISet<FnSig<'a>>, pn: Pos<'a>, qn: Pos<'a>, n: Seq<Node>, e: E2, k: FnSig<'a>)
    requires placed(W, a, pn, qn, n, e), !W.im[k].called, forall|x: FnSig<'a>| #[trigger] b.contains(x) <==> a.contains(x) || x == k
    ensures placed(W, b, pn, qn, n, e)
{}
pub proof fn listed<'a>(im: Im<'a>, ks: Seq<&FnSig<'a>>)
    requires
        forall|i: int| 0 <= i < ks.len() ==> im.contains_key(*(#[trigger] ks[i])),
        forall|k: FnSig<'a>| #[trigger] im.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && *(#[trigger] ks[i]) == k,
    ensures
        forall|v: VxStr| #[trigger] cand(im, v) <==> void_among(ks, ks.len() as int, v),
{
    assert forall|v: VxStr| #[trigger] cand(im, v) <==> void_among(ks, ks.len() as int, v) by {
        if void_among(ks, ks.len() as int, v) { let i = choose|i: int| 0 <= i < ks.len() && one_void(*#[trigger] ks[i], v); assert(im.contains_key(*ks[i])); }
    }
}
pub proof fn placed_step<'a>(W: World<'a>, ks: ISet<FnSig<'a>>, k: FnSig<'a>, pn: Pos<'a>, qn: Pos<'a>, n1: Seq<Node>, e1: E2, p: int, q: int, n: Seq<Node>, e: E2)
    requires
        placed(W, ks, pn, qn, n1, e1), !ks.contains(k), W.im[k].called, W.n0.len() <= usize::MAX,
        forall|a: int| #[trigger] inset(W.im[k].callers.s(), a) ==> a < W.n0.len(), forall|a: int| #[trigger] inset(targets(W, k), a) ==> a < W.n0.len(),
        forall|l: FnSig<'a>, a: int| pn.contains_key(l) && #[trigger] inset(W.im[l].callers.s(), a) ==> a < W.n0.len(),
        forall|l: FnSig<'a>, a: int| pn.contains_key(l) && #[trigger] inset(targets(W, l), a) ==> a < W.n0.len(),
        p == n1.len(), q == p + 1, n.len() == p + (if W.untyped { 2int } else { 1 }), forall|i: int| 0 <= i < p ==> #[trigger] n[i] == n1[i],
        fp_node(n[p], k, W.V), W.untyped ==> unknown_node(n[q]),
        forall|a: int, b: int| #[trigger] ec(e, a, b) == ec(e1, a, b) + (if want(W, k, p, q, a, b) { 1nat } else { 0nat }),
    ensures
        placed(W, ks.insert(k), pn.insert(k, p), qn.insert(k, q), n, e),
{
    let (pm, qm) = (pn.insert(k, p), qn.insert(k, q));
    assert forall|i: int| W.n0.len() <= i < n.len() implies is_new(W, pm, qm, i) by {
        if i < n1.len() { assert(is_new(W, pn, qn, i)); let l = choose|l: FnSig<'a>| #[trigger] pn.contains_key(l) && (i == pn[l] || (W.untyped && i == qn[l])); assert(pm.contains_key(l) && l != k); }
        else { assert(pm.contains_key(k)); }
    }
    assert forall|a: int, b: int| #[trigger] ec(e, a, b) == ec(W.e0, a, b) + (if wanted(W, pm, qm, a, b) { 1nat } else { 0nat }) by {
        assert(pm.contains_key(k) && pm[k] == p && qm[k] == q);
        if wanted(W, pn, qn, a, b) {
            let l = choose|l: FnSig<'a>| #[trigger] pn.contains_key(l) && want(W, l, pn[l], qn[l], a, b);
            assert(pm.contains_key(l) && l != k && pm[l] == pn[l] && qm[l] == qn[l]);
            assert(wanted(W, pm, qm, a, b));
            assert(!want(W, k, p, q, a, b));
        }
        if wanted(W, pm, qm, a, b) {
            let l = choose|l: FnSig<'a>| #[trigger] pm.contains_key(l) && want(W, l, pm[l], qm[l], a, b);
            if l != k { assert(pn.contains_key(l)); }
        }
    }
}
impl VxStr {
    /// String::push
    #[verifier::external_body]
    pub fn push(&mut self, c: char)
        ensures final(self)@ == old(self)@.push(c)
    { unimplemented!() }
}
impl<K> VxSet<K> {
    /// for x in &set
    #[verifier::external_body]
    pub fn vx_into_it(&self) -> (r: VxIter<&K>)
        ensures
            forall|i: int| 0 <= i < r.rest().len() ==> self.s().contains(*(#[trigger] r.rest()[i])),
            forall|k: K| #[trigger] self.s().contains(k) ==> exists|i: int| 0 <= i < r.rest().len() && *(#[trigger] r.rest()[i]) == k,
            forall|i: int, j: int| 0 <= i < r.rest().len() && 0 <= j < r.rest().len() && *(#[trigger] r.rest()[i]) == *(#[trigger] r.rest()[j]) ==> i == j,
    { unimplemented!() }
}
impl<K, V> VxMap<K, V> {
    /// for (k, v) in map
    #[verifier::external_body]
    pub fn vx_into_it(self) -> (r: VxIter<(K, V)>)
        ensures
            forall|i: int| 0 <= i < r.rest().len() ==> self.m().contains_key((#[trigger] r.rest()[i]).0) && r.rest()[i].1 == self.m()[r.rest()[i].0],
            forall|k: K| #[trigger] self.m().contains_key(k) ==> exists|i: int| 0 <= i < r.rest().len() && (#[trigger] r.rest()[i]).0 == k,
            forall|i: int, j: int| 0 <= i < r.rest().len() && 0 <= j < r.rest().len() && (#[trigger] r.rest()[i]).0 == (#[trigger] r.rest()[j]).0 ==> i == j,
    { unimplemented!() }
}
//@@insert block_fict
fn main() {}
}
