//@@spec block_maxstack
    requires
        g.wf(),
        forall|v: int| 0 <= v < g.nodes().len() ==> (#[trigger] g.nodes()[v]).max is None,
        psum(g.nodes(), all(), g.nodes().len() as int) <= u64::MAX,
    ensures
        ret.0.edges() == g.edges(), //#C06,C07 the calls are left alone
        same(g.nodes(), ret.0.nodes()), //#C06,C07 names, frames and styles are left alone
        !has_stack_usage_info ==> ret.0.nodes() == g.nodes(),
        has_stack_usage_info && !cyclic(g.edges()) ==> forall|v: int| 0 <= v < g.nodes().len() ==> #[trigger] exp_plain(g.edges(), g.nodes(), ret.0.nodes(), v), //#C06 own frame plus the largest maximum of the callees
        has_stack_usage_info && !cyclic(g.edges()) ==> forall|v: int| 0 <= v < g.nodes().len() ==> #[trigger] is_heaviest(g.edges(), g.nodes(), v, mx(ret.0.nodes(), v)), //#C06 the heaviest call chain, exact iff every reachable frame is known
        has_stack_usage_info && cyclic(g.edges()) ==> forall|v: int| 0 <= v < g.nodes().len() ==> #[trigger] expected(g.edges(), g.nodes(), ret.0.nodes(), v), //#C07 maxima in a graph with recursion
        has_stack_usage_info ==> cycles_ok(g.edges(), g.nodes().len(), vv(ret.1@)), //#C07 the reported cycles are exactly the recursive cycles
//@@proof block_maxstack.entry
    let ghost e = g.edges();
    let ghost nd0 = g.nodes();
    let ghost n = g.nodes().len();
    proof { edges_in(g); cycles_none(e, n); }
//@@proof block_maxstack.0.before
    let ghost s = vv(sccs@);
    let ghost mut k = 0int;
    let ghost mut ids = Seq::<int>::empty();
    proof {
        assert(vx_it_L0.rest().len() == s.len());
        comps_none(e, n, s, nd0, nd0);
        assert(vv(cycles@) =~= Seq::empty());
    }
//@@inv block_maxstack.0
    invariant
        n == nd0.len(), n <= usize::MAX,
        edges_ok(e, n),
        is_sccs(e, n, s),
        s == vv(sccs@),
        cyclic(e),
        has_stack_usage_info,
        psum(nd0, all(), n as int) <= u64::MAX,
        0 <= k <= s.len(),
        vx_it_L0.rest().len() == s.len() - k,
        forall|i: int| 0 <= i < vx_it_L0.rest().len() ==> (#[trigger] vx_it_L0.rest()[i])@ == s[k + i],
        g.edges() == e, g.wf(),
        same(nd0, g.nodes()), //#C06,C07 names, frames and styles are left alone
        comps_ok(e, n, s, k, nd0, g.nodes()), //#C07 the maxima of the components handled so far are right
        cycles_upto(e, s, k, vv(cycles@), ids), //#C07 the cycles reported so far are right
    ensures
        k == s.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_maxstack.0.top
    let ghost nd = g.nodes();
    let ghost i0 = k;
    let ghost cyc0 = vv(cycles@);
    let ghost cn = s[k];
    let ghost f0 = s[k][0].i();
    let ghost cs = comp(e, f0);
    let ghost osx = outs(e, cs);
    proof {
        if k < s.len() {
            assert(vx_it_L0.rest()[0]@ == s[k]);
            scc_basic(e, n, s, k);
            comps_get(e, n, s, k, nd0, nd);
            at_self(s[k], 0);
            scc_comp(e, n, s, k, f0);
            scc_cyc(e, n, s, k, f0);
            scc_next(e, n, s, k);
            outs_before(e, n, s, k, f0);
            if !cyc(e, f0) { plain_next(e, n, s, k); }
            k = k + 1;
        }
    }
//@@proof block_maxstack.1.before
    let ghost ns = vx_it_L1.rest();
    let ghost mut q = 0int;
//@@inv block_maxstack.1
    invariant
        0 <= q <= ns.len(),
        vx_it_L1.rest() =~= ns.skip(q),
        vx_b_L1 <==> at(ns.take(q), first.i()), //#C07 self-recursion is detected
    ensures
        q == ns.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_maxstack.1.top
    proof {
        if q < ns.len() {
            assert(ns.skip(q)[0] == ns[q]);
            assert(ns.skip(q).drop_first() =~= ns.skip(q + 1));
            at_push(ns, q);
            if ns[q].i() == first.i() { assert(ns[q] == first); }
            q = q + 1;
        }
    }
//@@proof block_maxstack.1.after
    proof { assert(ns.take(q) =~= ns); assert(edge(e, first.i(), first.i()) <==> at(ns, first.i())); }
//@@proof block_maxstack.2.before
    let ghost mut q = 0int;
    proof { assert(vx_it_L2.rest().len() == cn.len()); }
//@@inv block_maxstack.2
    invariant
        cn == scc@,
        0 <= q <= cn.len(),
        vx_it_L2.rest().len() == cn.len() - q,
        forall|i: int| 0 <= i < vx_it_L2.rest().len() ==> *(#[trigger] vx_it_L2.rest()[i]) == cn[q + i],
        forall|i: int| 0 <= i < cn.len() ==> (#[trigger] cn[i]).i() < n,
        g.nodes() == nd, same(nd0, nd),
        n == nd.len(),
        vx_v_L2@.len() == q,
        forall|i: int| 0 <= i < q ==> #[trigger] vx_v_L2@[i] == lc(nd0, cn[i].i()), //#C07 the frames of the cycle are collected
    ensures
        q == cn.len(),
    decreases vx_it_L2.rest().len(),
//@@proof block_maxstack.2.top
    proof { if q < cn.len() { assert(*vx_it_L2.rest()[0] == cn[q]); assert(cn[q].i() < n); q = q + 1; } }
//@@proof block_maxstack.2.after
    proof {
        let xs = vx_v_L2@;
        assert(xs.len() > 0);
        assert forall|r: Option<Max>| #[trigger] is_max_of(xs, r) implies is_sup(cs, lcf(nd0), r) by { covered(xs, cn, cs, lcf(nd0), r); }
    }
//@@proof block_maxstack.3.before
    let ghost mut q = 0int;
    let ghost mut gs = Seq::<int>::empty();
    proof {
        assert(vx_it_L3.rest().len() == cn.len()); }
//@@inv block_maxstack.3
    invariant
        cn == scc@,
        g.wf(), g.nodes() == nd, g.edges() == e, n == nd.len(),
        is_sccs(e, n, s), 0 <= i0 < s.len(), cn == s[i0],
        0 <= q <= cn.len(),
        vx_it_L3.rest().len() == cn.len() - q,
        forall|i: int| 0 <= i < vx_it_L3.rest().len() ==> *(#[trigger] vx_it_L3.rest()[i]) == cn[q + i],
        forall|i: int| 0 <= i < cn.len() ==> (#[trigger] cn[i]).i() < n,
        forall|m: int| #[trigger] cs.contains(m) <==> at(cn, m),
        osx == outs(e, cs),
        forall|m: int| #[trigger] osx.contains(m) ==> 0 <= m < n && nd[m].max is Some,
        vx_v_L3@.len() == gs.len(),
        forall|i: int| 0 <= i < gs.len() ==> #[trigger] vx_v_L3@[i] == mx(nd, gs[i]), //#C07 the maxima below the cycle are collected
        forall|i: int| 0 <= i < gs.len() ==> osx.contains(#[trigger] gs[i]), //#C07 only the maxima below the cycle count
        forall|i: int, m: int| 0 <= i < q && !cs.contains(m) && #[trigger] edge(e, (#[trigger] cn[i]).i(), m) ==> gs.contains(m), //#C07 every maximum below the cycle counts
    ensures
        q == cn.len(),
    decreases vx_it_L3.rest().len(),
//@@proof block_maxstack.3.top
    let ghost qo = q;
    proof { if q < cn.len() { assert(*vx_it_L3.rest()[0] == cn[q]); assert(cn[q].i() < n); at_self(cn, q); q = q + 1; } }
//@@proof block_maxstack.4.before
    let ghost ns = vx_it_L4.rest();
    let ghost mut p = 0int;
//@@inv block_maxstack.4
    invariant
        cn == scc@,
        g.nodes() == nd, n == nd.len(),
        0 <= qo < cn.len(), q == qo + 1,
        forall|m: int| #[trigger] cs.contains(m) <==> at(cn, m),
        cs.contains(cn[qo].i()),
        osx == outs(e, cs),
        forall|m: int| #[trigger] osx.contains(m) ==> 0 <= m < n && nd[m].max is Some,
        forall|m: int| edge(e, cn[qo].i(), m) <==> #[trigger] at(ns, m),
        0 <= p <= ns.len(),
        vx_it_L4.rest() =~= ns.skip(p),
        vx_v_L3@.len() == gs.len(),
        forall|i: int| 0 <= i < gs.len() ==> #[trigger] vx_v_L3@[i] == mx(nd, gs[i]), //#C07 the maxima below the cycle are collected
        forall|i: int| 0 <= i < gs.len() ==> osx.contains(#[trigger] gs[i]), //#C07 only the maxima below the cycle count
        forall|i: int, m: int| 0 <= i < qo && !cs.contains(m) && #[trigger] edge(e, (#[trigger] cn[i]).i(), m) ==> gs.contains(m), //#C07 every maximum below the cycle counts
        forall|i: int| 0 <= i < p && !cs.contains((#[trigger] ns[i]).i()) ==> gs.contains(ns[i].i()), //#C07 every maximum below the cycle counts
    ensures
        p == ns.len(),
    decreases vx_it_L4.rest().len(),
//@@proof block_maxstack.4.top
    proof {
        if p < ns.len() {
            assert(ns.skip(p)[0] == ns[p]);
            assert(ns.skip(p).drop_first() =~= ns.skip(p + 1));
            at_self(ns, p);
            assert(edge(e, cn[qo].i(), ns[p].i()));
            node_at(cn, ns[p]);
            if !cs.contains(ns[p].i()) {
                assert(osx.contains(ns[p].i()));
                let old_gs = gs;
                gs = gs.push(ns[p].i());
                push_has(old_gs, ns[p].i());
            }
            p = p + 1;
        }
    }
//@@proof block_maxstack.4.after
    proof {
        assert forall|i: int, m: int| 0 <= i < q && !cs.contains(m) && #[trigger] edge(e, (#[trigger] cn[i]).i(), m) implies gs.contains(m) by {
            if i == qo { assert(at(ns, m)); let j = choose|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]).i() == m; assert(gs.contains(ns[j].i())); }
        }
    }
//@@proof block_maxstack.3.after
    let ghost ys = vx_v_L3@;
    proof {
        assert forall|m: int| #[trigger] osx.contains(m) <==> gs.contains(m) by {
            if osx.contains(m) {
                let u = choose|u: int| cs.contains(u) && #[trigger] edge(e, u, m);
                let i = choose|i: int| 0 <= i < cn.len() && (#[trigger] cn[i]).i() == u;
                assert(edge(e, cn[i].i(), m));
            }
        }
        assert forall|r: Option<Max>| #[trigger] is_max_of(ys, r) implies is_sup(osx, mxf(nd), r) by { covered_i(ys, gs, osx, mxf(nd), r); }
    }
//@@proof block_maxstack.5.before
    let ghost mut q = 0int;
    let ghost val = plusm(neighbors_max, scc_local);
    proof {
        assert(vx_it_L5.rest().len() == cn.len());
        assert(cycle_sums(e, f0, nd0, nd, neighbors_max, scc_local));
        cycle_fits(e, n, s, i0, nd0, nd, neighbors_max, scc_local);
    }
//@@inv block_maxstack.5
    invariant
        cn == scc@,
        g.wf(), g.edges() == e, g.nodes().len() == n, nd.len() == n,
        0 <= q <= cn.len(),
        vx_it_L5.rest().len() == cn.len() - q,
        forall|i: int| 0 <= i < vx_it_L5.rest().len() ==> *(#[trigger] vx_it_L5.rest()[i]) == cn[q + i],
        forall|i: int| 0 <= i < cn.len() ==> (#[trigger] cn[i]).i() < n,
        neighbors_max is Some ==> known(neighbors_max->0) + known(scc_local) <= u64::MAX,
        val == plusm(neighbors_max, scc_local),
        same(nd, g.nodes()), //#C06,C07 names, frames and styles are left alone
        forall|v: int| 0 <= v < n && !at(cn.take(q), v) ==> #[trigger] g.nodes()[v] == nd[v], //#C07 only the members of the cycle change
        forall|v: int| 0 <= v < n && #[trigger] at(cn.take(q), v) ==> g.nodes()[v].max == Some(val), //#C07 every member of the cycle gets the maximum of the cycle
    ensures
        q == cn.len(),
    decreases vx_it_L5.rest().len(),
//@@proof block_maxstack.5.top
    let ghost nd5 = g.nodes();
    let ghost q5 = q;
    proof { if q < cn.len() { assert(*vx_it_L5.rest()[0] == cn[q]); assert(cn[q].i() < n); at_push(cn, q); q = q + 1; } }
//@@proof block_maxstack.5.end
    proof {
        assert forall|v: int| 0 <= v < n && !at(cn.take(q), v) implies #[trigger] g.nodes()[v] == nd[v] by { assert(!at(cn.take(q5), v) && v != cn[q5].i()); assert(nd5[v] == nd[v]); }
    }
//@@proof block_maxstack.5.after
    proof {
        assert(cn.take(q) =~= cn);
        cycle_done(e, n, s, i0, nd0, nd, g.nodes(), neighbors_max, scc_local);
        assert(vv(cycles@) =~= cyc0.push(s[i0]));
        cycles_push(e, s, i0, cyc0, ids, vv(cycles@));
        ids = ids.push(i0);
    }
//@@proof block_maxstack.6.before
    let ghost ns = vx_it_L6.rest();
    let ghost mut q = 0int;
//@@inv block_maxstack.6
    invariant
        g.nodes() == nd, n == nd.len(),
        0 <= q <= ns.len(),
        vx_it_L6.rest() =~= ns.skip(q),
        forall|m: int| edge(e, inode.i(), m) <==> #[trigger] at(ns, m),
        forall|m: int| #[trigger] edge(e, inode.i(), m) ==> 0 <= m < n && nd[m].max is Some,
        vx_v_L6@.len() == q,
        forall|i: int| 0 <= i < q ==> #[trigger] vx_v_L6@[i] == mx(nd, ns[i].i()), //#C07 the maxima of the callees are collected
    ensures
        q == ns.len(),
    decreases vx_it_L6.rest().len(),
//@@proof block_maxstack.6.top
    proof {
        if q < ns.len() {
            assert(ns.skip(q)[0] == ns[q]);
            assert(ns.skip(q).drop_first() =~= ns.skip(q + 1));
            at_self(ns, q);
            assert(edge(e, inode.i(), ns[q].i()));
            q = q + 1;
        }
    }
//@@proof block_maxstack.6.after
    proof {
        let ys = vx_v_L6@;
        let ss = succ(e, f0);
        assert forall|r: Option<Max>| #[trigger] is_max_of(ys, r) implies is_sup(ss, mxf(nd), r) && (if r is Some { known(r->0) } else { 0 }) + fr(nd0, f0) <= u64::MAX by {
            covered(ys, ns, ss, mxf(nd), r);
            plain_fit(e, n, s, i0, nd0, nd, f0, r);
        }
    }
//@@proof block_maxstack.0.end
    proof {
        if !cyc(e, f0) {
            assert(plain_sums(e, f0, nd0, nd, g.nodes()));
            plain_done(e, n, s, i0, nd0, nd, g.nodes(), f0);
            assert(vv(cycles@) =~= cyc0);
            cycles_skip(e, s, i0, cyc0, ids);
        }
    }
//@@proof block_maxstack.0.after
    proof { comps_end(e, n, s, nd0, g.nodes()); cycles_all(e, n, s, vv(cycles@), ids); }
//@@proof block_maxstack.7.before
    proof {
        flip_acyclic(e);
        topo_none(e, n, nd0);
    }
//@@inv block_maxstack.7
    invariant
        n == nd0.len(),
        edges_ok(e, n),
        g.wf(), g.edges() == e,
        !cyclic(e), !cyclic(flip(e)),
        has_stack_usage_info,
        psum(nd0, all(), n as int) <= u64::MAX,
        topo.n() == n, topo.e() == flip(e),
        same(nd0, g.nodes()), //#C06,C07 names, frames and styles are left alone
        topo_ok(e, n, nd0, g.nodes(), topo.seen()), //#C06 the maxima of the functions handled so far are right
    ensures
        forall|v: int| 0 <= v < n ==> #[trigger] topo.seen().contains(v),
    decreases topo.left(),
//@@proof block_maxstack.7.top
    let ghost nd = g.nodes();
    let ghost seen0 = topo.seen();
    let ghost mut tv = 0int;
    proof { topo_get(e, n, nd0, nd, seen0); }
//@@proof block_maxstack.8.before
    let ghost ns = vx_it_L8.rest();
    let ghost mut q = 0int;
    proof {
        assert forall|m: int| #[trigger] edge(e, node.i(), m) implies seen0.contains(m) by { flip_edge(e, m, node.i()); assert(edge(flip(e), m, node.i())); }
    }
//@@inv block_maxstack.8
    invariant
        g.nodes() == nd, n == nd.len(),
        0 <= q <= ns.len(),
        vx_it_L8.rest() =~= ns.skip(q),
        forall|m: int| edge(e, node.i(), m) <==> #[trigger] at(ns, m),
        forall|m: int| #[trigger] edge(e, node.i(), m) ==> 0 <= m < n && nd[m].max is Some,
        vx_v_L8@.len() == q,
        forall|i: int| 0 <= i < q ==> #[trigger] vx_v_L8@[i] == mx(nd, ns[i].i()), //#C06 the maxima of the callees are collected
    ensures
        q == ns.len(),
    decreases vx_it_L8.rest().len(),
//@@proof block_maxstack.8.top
    proof {
        if q < ns.len() {
            assert(ns.skip(q)[0] == ns[q]);
            assert(ns.skip(q).drop_first() =~= ns.skip(q + 1));
            at_self(ns, q);
            assert(edge(e, node.i(), ns[q].i()));
            q = q + 1;
        }
    }
//@@proof block_maxstack.8.after
    proof {
        tv = node.i();
        let ys = vx_v_L8@;
        let ss = succ(e, tv);
        assert forall|r: Option<Max>| #[trigger] is_max_of(ys, r) implies is_sup(ss, mxf(nd), r) && (if r is Some { known(r->0) } else { 0 }) + fr(nd0, tv) <= u64::MAX by {
            covered(ys, ns, ss, mxf(nd), r);
            topo_fit(n, e, nd0, nd, seen0, tv, r);
        }
    }
//@@proof block_maxstack.7.end
    proof {
        assert(plain_sums(e, tv, nd0, nd, g.nodes()));
        topo_done(e, n, nd0, nd, g.nodes(), seen0, tv);
    }
//@@proof block_maxstack.7.after
    proof {
        topo_get(e, n, nd0, g.nodes(), topo.seen()); assert(vv(cycles@) =~= Seq::empty());
        assert forall|v: int| 0 <= v < n implies #[trigger] exp_plain(e, nd0, g.nodes(), v) by { assert(topo.seen().contains(v)); }
        assert forall|v: int| 0 <= v < n implies #[trigger] is_heaviest(e, nd0, v, mx(g.nodes(), v)) by { assert(topo.seen().contains(v)); }
    }
//@@code
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::core::*;
use core::{ops, cmp};
verus! {
//@@include iter.inc
//@@include str0.inc
//@@include lattice.inc
//@@include graph.inc
//@@insert Node

/// the contract of max_of, proved in unit `lattice`
#[verifier::external_body]
fn max_of(iter: VxIter<Max>) -> (ret: Option<Max>)
    ensures is_max_of(iter.rest(), ret)
{ unimplemented!() }

// ------------------------------------------------------------------ what the maxima have to be
pub open spec fn all() -> ISet<int> { ISet::new(|v: int| true) }
/// maximum and frame of node v
pub open spec fn mx(nd: Seq<Node>, v: int) -> Max { nd[v].max->0 }
pub open spec fn lc(nd: Seq<Node>, v: int) -> Max { IntoSpec::<Max>::into_spec(nd[v].local) }
pub open spec fn fr(nd: Seq<Node>, v: int) -> nat { lknown(nd[v].local) }
pub open spec fn same(a: Seq<Node>, b: Seq<Node>) -> bool {
    a.len() == b.len() && forall|v: int| 0 <= v < a.len() ==> (#[trigger] b[v]).local == a[v].local && b[v].name == a[v].name && b[v].dashed == a[v].dashed
}
/// the calls of v
pub open spec fn succ(e: E2, v: int) -> ISet<int> { ISet::new(|w: int| edge(e, v, w)) }
/// r is the maximum of the figures f over the set
#[verifier::opaque]
pub open spec fn is_sup(s: ISet<int>, f: spec_fn(int) -> Max, r: Option<Max>) -> bool {
    match r {
        None => forall|v: int| !#[trigger] s.contains(v),
        Some(m) => {
            &&& exists|v: int| #[trigger] s.contains(v) && known(f(v)) == known(m)
            &&& forall|v: int| #[trigger] s.contains(v) ==> known(f(v)) <= known(m)
            &&& exact(m) <==> forall|v: int| #[trigger] s.contains(v) ==> exact(f(v))
        }
    }
}
/// maximum of the callees (if any) plus the own frame
pub open spec fn plus(r: Option<Max>, l: Local) -> Max { match r { None => IntoSpec::<Max>::into_spec(l), Some(m) => AddSpec::add_spec(m, l) } }
pub open spec fn plusm(r: Option<Max>, l: Max) -> Max { match r { None => l, Some(m) => AddSpec::add_spec(m, l) } }
/// own frame plus the largest maximum of the callees
#[verifier::opaque]
pub open spec fn exp_plain(e: E2, nd0: Seq<Node>, nd: Seq<Node>, v: int) -> bool {
    nd[v].max is Some && exists|r: Option<Max>| is_sup(succ(e, v), mxf(nd), r) && mx(nd, v) == #[trigger] plus(r, nd0[v].local)
}
/// the frame of a cycle: exact only if it is known to be zero
pub open spec fn demote(m: Max) -> Max { if known(m) == 0 { m } else { Max::LowerBound(known(m) as u64) } }
/// the largest frame of the cycle plus the largest maximum of the functions called from it
#[verifier::opaque]
pub open spec fn exp_cycle(e: E2, nd0: Seq<Node>, nd: Seq<Node>, v: int) -> bool {
    nd[v].max is Some && exists|fl: Max, r: Option<Max>| is_sup(comp(e, v), lcf(nd0), Some(fl)) && is_sup(outs(e, comp(e, v)), mxf(nd), r) && mx(nd, v) == #[trigger] plusm(r, demote(fl))
}
pub open spec fn expected(e: E2, nd0: Seq<Node>, nd: Seq<Node>, v: int) -> bool { if cyc(e, v) { exp_cycle(e, nd0, nd, v) } else { exp_plain(e, nd0, nd, v) } }

/// known frames along a chain of calls
pub open spec fn weight(nd: Seq<Node>, p: Seq<int>) -> nat
    decreases p.len()
{ if p.len() == 0 { 0 } else { fr(nd, p[0]) + weight(nd, p.drop_first()) } }
/// m is the weight of the heaviest call chain from v, exact iff every function reachable from v has a known frame
#[verifier::opaque]
pub open spec fn is_heaviest(e: E2, nd: Seq<Node>, v: int, m: Max) -> bool {
    &&& forall|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == v ==> weight(nd, p) <= known(m)
    &&& exists|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == v && weight(nd, p) == known(m)
    &&& exact(m) <==> forall|w: int| #[trigger] reach(e, v, w) ==> lexact(nd[w].local)
}
pub open spec fn acyclic_ok(e: E2, nd0: Seq<Node>, nd: Seq<Node>, v: int) -> bool { nd[v].max is Some && exp_plain(e, nd0, nd, v) && is_heaviest(e, nd0, v, mx(nd, v)) }

/// the reported cycles: components on a cycle, each complete, without repetition, and all of them
#[verifier::opaque]
pub open spec fn cycles_ok(e: E2, n: nat, c: Seq<Seq<NodeIndex>>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len() > 0 && cyc(e, c[i][0].i()) && c[i].no_duplicates()
    &&& forall|i: int, m: int| 0 <= i < c.len() ==> (#[trigger] at(c[i], m) <==> comp(e, c[i][0].i()).contains(m))
    &&& forall|v: int| 0 <= v < n && #[trigger] cyc(e, v) ==> member(c, v)
    &&& forall|i: int, j: int, m: int| 0 <= i < c.len() && 0 <= j < c.len() && #[trigger] at(c[i], m) && #[trigger] at(c[j], m) ==> i == j
}

// ------------------------------------------------------------------ helpers of the proof
pub open spec fn edges_ok(e: E2, n: nat) -> bool { forall|a: int, b: int| #[trigger] edge(e, a, b) ==> 0 <= a < n && 0 <= b < n }
proof fn edges_in<N, E>(g: DiGraph<N, E>)
    requires g.wf()
    ensures edges_ok(g.edges(), g.nodes().len())
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert forall|a: int, b: int| #[trigger] edge(g.edges(), a, b) implies 0 <= a < g.nodes().len() && 0 <= b < g.nodes().len() by {
        let k = choose|k: int| 0 <= k < g.edges().len() && g.edges()[k] == (a, b);
        assert(0 <= g.edges()[k].0 < g.nodes().len());
    }
}
proof fn at_self(s: Seq<NodeIndex>, k: int)
    requires 0 <= k < s.len()
    ensures at(s, s[k].i())
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);}
proof fn at_push(s: Seq<NodeIndex>, q: int)
    requires 0 <= q < s.len()
    ensures forall|m: int| #[trigger] at(s.take(q + 1), m) <==> (at(s.take(q), m) || m == s[q].i()), forall|m: int| #[trigger] at(s.take(q), m) ==> at(s.take(q + 1), m)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert forall|m: int| #[trigger] at(s.take(q + 1), m) <==> (at(s.take(q), m) || m == s[q].i()) by {
        if at(s.take(q + 1), m) { let k = choose|k: int| 0 <= k < q + 1 && (#[trigger] s.take(q + 1)[k]).i() == m; if k < q { assert(s.take(q)[k].i() == m); } }
        if at(s.take(q), m) { let k = choose|k: int| 0 <= k < q && (#[trigger] s.take(q)[k]).i() == m; assert(s.take(q + 1)[k].i() == m); }
        if m == s[q].i() { assert(s.take(q + 1)[q].i() == m); }
    }
}
proof fn node_at(s: Seq<NodeIndex>, x: NodeIndex)
    ensures at(s, x.i()) <==> exists|i: int| 0 <= i < s.len() && PartialEqSpec::eq_spec(&(#[trigger] s[i]), &x)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    if at(s, x.i()) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i() == x.i(); assert(s[k] == x); }

}
proof fn push_has(s: Seq<int>, x: int)
    ensures s.push(x).contains(x), forall|y: int| s.contains(y) ==> #[trigger] s.push(x).contains(y)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert(s.push(x)[s.len() as int] == x);
    assert forall|y: int| s.contains(y) implies #[trigger] s.push(x).contains(y) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(s.push(x)[k] == y); }
}
proof fn covered(xs: Seq<Max>, ns: Seq<NodeIndex>, s: ISet<int>, f: spec_fn(int) -> Max, r: Option<Max>)
    requires xs.len() == ns.len(), forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i] == f(ns[i].i()), forall|m: int| #[trigger] s.contains(m) <==> at(ns, m), is_max_of(xs, r)
    ensures is_sup(s, f, r)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    let gs = Seq::new(ns.len(), |i: int| ns[i].i());
    assert forall|m: int| #[trigger] s.contains(m) <==> gs.contains(m) by {
        if s.contains(m) { let k = choose|k: int| 0 <= k < ns.len() && (#[trigger] ns[k]).i() == m; assert(gs[k] == m); }
        if gs.contains(m) { let k = choose|k: int| 0 <= k < gs.len() && gs[k] == m; assert(ns[k].i() == m); }
    }
    covered_i(xs, gs, s, f, r);
}
proof fn covered_i(xs: Seq<Max>, gs: Seq<int>, s: ISet<int>, f: spec_fn(int) -> Max, r: Option<Max>)
    requires xs.len() == gs.len(), forall|i: int| 0 <= i < xs.len() ==> #[trigger] xs[i] == f(gs[i]), forall|m: int| #[trigger] s.contains(m) <==> gs.contains(m), is_max_of(xs, r)
    ensures is_sup(s, f, r)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    match r {
        None => {}
        Some(m) => {
            let k = choose|k: int| 0 <= k < xs.len() && known(#[trigger] xs[k]) == known(m);
            assert(s.contains(gs[k]) && known(f(gs[k])) == known(m));
            assert forall|v: int| #[trigger] s.contains(v) implies known(f(v)) <= known(m) by { let j = choose|j: int| 0 <= j < gs.len() && gs[j] == v; assert(xs[j] == f(v)); }
            if exact(m) { assert forall|v: int| #[trigger] s.contains(v) implies exact(f(v)) by { let j = choose|j: int| 0 <= j < gs.len() && gs[j] == v; assert(xs[j] == f(v)); } }
            if forall|v: int| #[trigger] s.contains(v) ==> exact(f(v)) { assert forall|j: int| 0 <= j < xs.len() implies exact(#[trigger] xs[j]) by { assert(s.contains(gs[j])); } }
        }
    }
}
proof fn sup_frame(s: ISet<int>, f: spec_fn(int) -> Max, g: spec_fn(int) -> Max, r: Option<Max>)
    requires is_sup(s, f, r), forall|v: int| #[trigger] s.contains(v) ==> f(v) == g(v)
    ensures is_sup(s, g, r)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    if r is Some {
        let v = choose|v: int| #[trigger] s.contains(v) && known(f(v)) == known(r->0);
        assert(s.contains(v) && known(g(v)) == known(r->0));
    }
}
/// known frames of the nodes of a set
pub open spec fn psum(nd: Seq<Node>, s: ISet<int>, k: int) -> nat
    decreases k
{ if k <= 0 { 0 } else { psum(nd, s, k - 1) + if s.contains(k - 1) { fr(nd, k - 1) } else { 0 } } }
proof fn psum_mono(nd: Seq<Node>, s: ISet<int>, t: ISet<int>, k: int)
    requires forall|v: int| #[trigger] s.contains(v) ==> t.contains(v)
    ensures psum(nd, s, k) <= psum(nd, t, k)
    decreases k
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle); if k > 0 { psum_mono(nd, s, t, k - 1); } }
proof fn psum_eq(nd: Seq<Node>, s: ISet<int>, t: ISet<int>, k: int)
    requires forall|v: int| 0 <= v < k ==> (s.contains(v) <==> t.contains(v))
    ensures psum(nd, s, k) == psum(nd, t, k)
    decreases k
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle); if k > 0 { psum_eq(nd, s, t, k - 1); } }
proof fn psum_insert(nd: Seq<Node>, s: ISet<int>, v: int, k: int)
    requires 0 <= v < k, !s.contains(v)
    ensures psum(nd, s.insert(v), k) == psum(nd, s, k) + fr(nd, v)
    decreases k
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    if v == k - 1 { psum_eq(nd, s, s.insert(v), k - 1); } else { psum_insert(nd, s, v, k - 1); }
}
/// the members of the first k components
pub open spec fn upto(s: Seq<Seq<NodeIndex>>, k: int) -> ISet<int> { ISet::new(|v: int| exists|j: int| 0 <= j < k && at(#[trigger] s[j], v)) }
/// the members of component k have not been seen before it
proof fn scc_fresh(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, v: int)
    requires is_sccs(e, n, s), 0 <= k < s.len(), at(s[k], v)
    ensures !upto(s, k).contains(v), 0 <= v < n
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    let a = choose|a: int| 0 <= a < s[k].len() && (#[trigger] s[k][a]).i() == v;
    if upto(s, k).contains(v) {
        let j = choose|j: int| 0 <= j < k && at(#[trigger] s[j], v);
        let b = choose|b: int| 0 <= b < s[j].len() && (#[trigger] s[j][b]).i() == v;
    }
}
/// calls from component k lead into it or into earlier ones
proof fn scc_next(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int)
    requires is_sccs(e, n, s), 0 <= k < s.len(), edges_ok(e, n)
    ensures forall|v: int, w: int| at(s[k], v) && #[trigger] edge(e, v, w) ==> upto(s, k).contains(w) || at(s[k], w)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert forall|v: int, w: int| at(s[k], v) && #[trigger] edge(e, v, w) implies upto(s, k).contains(w) || at(s[k], w) by {
        let a = choose|a: int| 0 <= a < s[k].len() && (#[trigger] s[k][a]).i() == v;
        assert(member(s, w));
        let j = choose|j: int| 0 <= j < s.len() && at(#[trigger] s[j], w);
        let b = choose|b: int| 0 <= b < s[j].len() && (#[trigger] s[j][b]).i() == w;
        assert(edge(e, s[k][a].i(), s[j][b].i()));
    }
}
//@@include maxstack_lemmas.inc
//@@insert block_maxstack
}
fn main() {}
