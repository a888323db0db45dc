pub open spec fn mxf(nd: Seq<Node>) -> spec_fn(int) -> Max { |v: int| mx(nd, v) }
pub open spec fn lcf(nd: Seq<Node>) -> spec_fn(int) -> Max { |v: int| lc(nd, v) }
/// the components below k are finished
#[verifier::opaque]
pub open spec fn comps_ok(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>) -> bool {
    forall|v: int| #[trigger] upto(s, k).contains(v) ==> 0 <= v < n && expected(e, nd0, nd, v) && known(mx(nd, v)) <= psum(nd0, upto(s, k), n as int)
}
proof fn upto_next(s: Seq<Seq<NodeIndex>>, k: int)
    requires 0 <= k
    ensures forall|v: int| #[trigger] upto(s, k + 1).contains(v) <==> upto(s, k).contains(v) || at(s[k], v)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert forall|v: int| #[trigger] upto(s, k + 1).contains(v) <==> upto(s, k).contains(v) || at(s[k], v) by {
        if upto(s, k + 1).contains(v) { let j = choose|j: int| 0 <= j < k + 1 && at(#[trigger] s[j], v); if j < k { assert(at(s[j], v)); } }
        if upto(s, k).contains(v) { let j = choose|j: int| 0 <= j < k && at(#[trigger] s[j], v); assert(0 <= j < k + 1 && at(s[j], v)); }
        if at(s[k], v) { assert(0 <= k < k + 1 && at(s[k], v)); }
    }
}
proof fn exp_frame(e: E2, nd0: Seq<Node>, nd: Seq<Node>, nd2: Seq<Node>, v: int)
    requires expected(e, nd0, nd, v), nd2[v].max == nd[v].max,
        forall|w: int| #[trigger] edge(e, v, w) && !cyc(e, v) ==> nd2[w].max == nd[w].max,
        forall|w: int| #[trigger] outs(e, comp(e, v)).contains(w) ==> nd2[w].max == nd[w].max,
    ensures expected(e, nd0, nd2, v)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    if cyc(e, v) {
        let (fl, r) = choose|fl: Max, r: Option<Max>| is_sup(comp(e, v), lcf(nd0), Some(fl)) && is_sup(outs(e, comp(e, v)), mxf(nd), r) && mx(nd, v) == #[trigger] plusm(r, demote(fl));
        sup_frame(outs(e, comp(e, v)), mxf(nd), mxf(nd2), r);
        assert(mx(nd2, v) == plusm(r, demote(fl)));
    } else {
        let r = choose|r: Option<Max>| is_sup(succ(e, v), mxf(nd), r) && mx(nd, v) == #[trigger] plus(r, nd0[v].local);
        assert forall|w: int| #[trigger] succ(e, v).contains(w) implies mxf(nd)(w) == mxf(nd2)(w) by { assert(edge(e, v, w)); }
        sup_frame(succ(e, v), mxf(nd), mxf(nd2), r);
        assert(mx(nd2, v) == plus(r, nd0[v].local));
    }
}
/// calls out of component j lead to earlier ones
proof fn outs_before(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, j: int, v: int)
    requires is_sccs(e, n, s), 0 <= j < s.len(), at(s[j], v), edges_ok(e, n)
    ensures forall|w: int| #[trigger] outs(e, comp(e, v)).contains(w) ==> upto(s, j).contains(w)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    scc_comp(e, n, s, j, v); scc_next(e, n, s, j);
    assert forall|w: int| #[trigger] outs(e, comp(e, v)).contains(w) implies upto(s, j).contains(w) by {
        let u = choose|u: int| comp(e, v).contains(u) && #[trigger] edge(e, u, w);
        assert(at(s[j], u) && edge(e, u, w));
        assert(!comp(e, v).contains(w));
    }
}
proof fn step(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>, nd2: Seq<Node>)
    requires
        is_sccs(e, n, s), edges_ok(e, n), 0 <= k < s.len(),
        comps_ok(e, n, s, k, nd0, nd),
        forall|v: int| 0 <= v < n && !at(s[k], v) ==> #[trigger] nd2[v] == nd[v],
        forall|v: int| #[trigger] at(s[k], v) ==> expected(e, nd0, nd2, v) && known(mx(nd2, v)) <= psum(nd0, upto(s, k + 1), n as int),
    ensures comps_ok(e, n, s, k + 1, nd0, nd2)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    upto_next(s, k);
    psum_mono(nd0, upto(s, k), upto(s, k + 1), n as int);
    assert forall|v: int| #[trigger] upto(s, k + 1).contains(v) implies 0 <= v < n && expected(e, nd0, nd2, v) && known(mx(nd2, v)) <= psum(nd0, upto(s, k + 1), n as int) by {
        if at(s[k], v) { scc_fresh(e, n, s, k, v); }
        else {
            assert(upto(s, k).contains(v));
            assert(nd2[v] == nd[v]);
            let j = choose|j: int| 0 <= j < k && at(#[trigger] s[j], v);
            outs_before(e, n, s, j, v);
            scc_next(e, n, s, j);
            assert forall|w: int| upto(s, j).contains(w) || at(s[j], w) implies #[trigger] nd2[w] == nd[w] by {
                if upto(s, j).contains(w) { let i = choose|i: int| 0 <= i < j && at(#[trigger] s[i], w); assert(0 <= i < k && at(s[i], w)); }
                assert(upto(s, k).contains(w));
                if at(s[k], w) { scc_fresh(e, n, s, k, w); }
            }
            exp_frame(e, nd0, nd, nd2, v);
        }
    }
}
/// a maximum over finished callees plus one frame of component k is within the frames seen after it
proof fn fits(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>, set: ISet<int>, r: Option<Max>, u: int)
    requires is_sccs(e, n, s), 0 <= k < s.len(), at(s[k], u), comps_ok(e, n, s, k, nd0, nd), is_sup(set, mxf(nd), r), forall|w: int| #[trigger] set.contains(w) ==> upto(s, k).contains(w), psum(nd0, all(), n as int) <= u64::MAX
    ensures (if r is Some { known(r->0) } else { 0 }) + fr(nd0, u) <= psum(nd0, upto(s, k + 1), n as int) <= u64::MAX
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    scc_fresh(e, n, s, k, u);
    upto_next(s, k);
    psum_insert(nd0, upto(s, k), u, n as int);
    psum_mono(nd0, upto(s, k).insert(u), upto(s, k + 1), n as int);
    psum_mono(nd0, upto(s, k + 1), all(), n as int);
    if r is Some {
        let w = choose|w: int| #[trigger] set.contains(w) && known(mxf(nd)(w)) == known(r->0);
        assert(upto(s, k).contains(w));
    }
}
/// what the loop computed for a component on a cycle
pub open spec fn cycle_sums(e: E2, v: int, nd0: Seq<Node>, nd: Seq<Node>, r: Option<Max>, sl: Max) -> bool {
    &&& is_sup(outs(e, comp(e, v)), mxf(nd), r)
    &&& exists|fl: Max| #[trigger] is_sup(comp(e, v), lcf(nd0), Some(fl)) && sl == demote(fl)
}
proof fn cycle_fits(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>, r: Option<Max>, sl: Max)
    requires is_sccs(e, n, s), edges_ok(e, n), 0 <= k < s.len(), s[k].len() > 0, comps_ok(e, n, s, k, nd0, nd), cycle_sums(e, s[k][0].i(), nd0, nd, r, sl), psum(nd0, all(), n as int) <= u64::MAX
    ensures (if r is Some { known(r->0) } else { 0 }) + known(sl) <= psum(nd0, upto(s, k + 1), n as int) <= u64::MAX
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    let v = s[k][0].i();
    at_self(s[k], 0);
    scc_comp(e, n, s, k, v);
    let fl = choose|fl: Max| #[trigger] is_sup(comp(e, v), lcf(nd0), Some(fl)) && sl == demote(fl);
    let u = choose|u: int| #[trigger] comp(e, v).contains(u) && known(lcf(nd0)(u)) == known(fl);
    assert(at(s[k], u));
    outs_before(e, n, s, k, v);
    fits(e, n, s, k, nd0, nd, outs(e, comp(e, v)), r, u);
}
proof fn cycle_done(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>, nd2: Seq<Node>, r: Option<Max>, sl: Max)
    requires
        is_sccs(e, n, s), edges_ok(e, n), 0 <= k < s.len(), s[k].len() > 0,
        comps_ok(e, n, s, k, nd0, nd),
        cyc(e, s[k][0].i()),
        cycle_sums(e, s[k][0].i(), nd0, nd, r, sl),
        psum(nd0, all(), n as int) <= u64::MAX,
        forall|v: int| 0 <= v < n && !at(s[k], v) ==> #[trigger] nd2[v] == nd[v],
        forall|v: int| 0 <= v < n && #[trigger] at(s[k], v) ==> nd2[v].max == Some(plusm(r, sl)),
    ensures comps_ok(e, n, s, k + 1, nd0, nd2)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    let v0 = s[k][0].i();
    at_self(s[k], 0);
    scc_comp(e, n, s, k, v0);
    scc_cyc(e, n, s, k, v0);
    cycle_fits(e, n, s, k, nd0, nd, r, sl);
    let fl = choose|fl: Max| #[trigger] is_sup(comp(e, v0), lcf(nd0), Some(fl)) && sl == demote(fl);
    assert forall|v: int| #[trigger] at(s[k], v) implies expected(e, nd0, nd2, v) && known(mx(nd2, v)) <= psum(nd0, upto(s, k + 1), n as int) by {
        scc_fresh(e, n, s, k, v);
        scc_comp(e, n, s, k, v);
        scc_cyc(e, n, s, k, v);
        assert(comp(e, v) =~= comp(e, v0));
        if v != v0 {
            let a = choose|a: int| 0 <= a < s[k].len() && (#[trigger] s[k][a]).i() == v;
            if s[k].len() <= 1 { assert(a == 0); }
        }
        assert(cyc(e, v));
        outs_before(e, n, s, k, v);
        assert forall|w: int| #[trigger] outs(e, comp(e, v)).contains(w) implies mxf(nd)(w) == mxf(nd2)(w) by {
            assert(upto(s, k).contains(w));
            if at(s[k], w) { scc_fresh(e, n, s, k, w); }
            assert(nd2[w] == nd[w]);
        }
        sup_frame(outs(e, comp(e, v)), mxf(nd), mxf(nd2), r);
        assert(mx(nd2, v) == plusm(r, demote(fl)));
        assert(exp_cycle(e, nd0, nd2, v));
    }
    step(e, n, s, k, nd0, nd, nd2);
}
pub open spec fn plain_sums(e: E2, v: int, nd0: Seq<Node>, nd: Seq<Node>, nd2: Seq<Node>) -> bool {
    exists|r: Option<Max>| #[trigger] is_sup(succ(e, v), mxf(nd), r) && nd2[v].max == Some(plus(r, nd0[v].local))
}
proof fn plain_fit(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>, v: int, r: Option<Max>)
    requires
        is_sccs(e, n, s), edges_ok(e, n), 0 <= k < s.len(), at(s[k], v), s[k].len() == 1, !edge(e, v, v),
        comps_ok(e, n, s, k, nd0, nd),
        is_sup(succ(e, v), mxf(nd), r),
        psum(nd0, all(), n as int) <= u64::MAX,
    ensures (if r is Some { known(r->0) } else { 0 }) + fr(nd0, v) <= psum(nd0, upto(s, k + 1), n as int) <= u64::MAX
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    scc_next(e, n, s, k);
    assert forall|w: int| #[trigger] succ(e, v).contains(w) implies upto(s, k).contains(w) by {
        assert(edge(e, v, w));
        if at(s[k], w) { let a = choose|a: int| 0 <= a < s[k].len() && (#[trigger] s[k][a]).i() == w; let b = choose|b: int| 0 <= b < s[k].len() && (#[trigger] s[k][b]).i() == v; assert(a == b); }
    }
    fits(e, n, s, k, nd0, nd, succ(e, v), r, v);
}
proof fn plain_done(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>, nd2: Seq<Node>, v: int)
    requires
        is_sccs(e, n, s), edges_ok(e, n), 0 <= k < s.len(), at(s[k], v), s[k].len() == 1, !cyc(e, v),
        comps_ok(e, n, s, k, nd0, nd),
        plain_sums(e, v, nd0, nd, nd2),
        psum(nd0, all(), n as int) <= u64::MAX,
        forall|w: int| 0 <= w < n && w != v ==> #[trigger] nd2[w] == nd[w],
    ensures comps_ok(e, n, s, k + 1, nd0, nd2)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    scc_cyc(e, n, s, k, v);
    let r = choose|r: Option<Max>| #[trigger] is_sup(succ(e, v), mxf(nd), r) && nd2[v].max == Some(plus(r, nd0[v].local));
    plain_fit(e, n, s, k, nd0, nd, v, r);
    let b = choose|b: int| 0 <= b < s[k].len() && (#[trigger] s[k][b]).i() == v;
    assert forall|w: int| at(s[k], w) <==> w == v by { if at(s[k], w) { let a = choose|a: int| 0 <= a < s[k].len() && (#[trigger] s[k][a]).i() == w; assert(a == b); } }
    assert forall|w: int| #[trigger] succ(e, v).contains(w) implies mxf(nd)(w) == mxf(nd2)(w) by { assert(edge(e, v, w)); assert(w != v); assert(nd2[w] == nd[w]); }
    sup_frame(succ(e, v), mxf(nd), mxf(nd2), r);
    assert(mx(nd2, v) == plus(r, nd0[v].local));
    assert(exp_plain(e, nd0, nd2, v));
    step(e, n, s, k, nd0, nd, nd2);
}
// ---- the reported cycles
#[verifier::opaque]
pub open spec fn cycles_upto(e: E2, s: Seq<Seq<NodeIndex>>, k: int, c: Seq<Seq<NodeIndex>>, ids: Seq<int>) -> bool {
    &&& c.len() == ids.len()
    &&& forall|i: int| 0 <= i < ids.len() ==> 0 <= (#[trigger] ids[i]) < k && c[i] == s[ids[i]] && cyc(e, s[ids[i]][0].i())
    &&& forall|i: int, j: int| 0 <= i < ids.len() && 0 <= j < ids.len() && #[trigger] ids[i] == #[trigger] ids[j] ==> i == j
    &&& forall|j: int| 0 <= j < k && cyc(e, (#[trigger] s[j])[0].i()) ==> ids.contains(j)
}
proof fn cycles_push(e: E2, s: Seq<Seq<NodeIndex>>, k: int, c0: Seq<Seq<NodeIndex>>, ids: Seq<int>, c: Seq<Seq<NodeIndex>>)
    requires 0 <= k < s.len(), cycles_upto(e, s, k, c0, ids), cyc(e, s[k][0].i()), c == c0.push(s[k])
    ensures cycles_upto(e, s, k + 1, c, ids.push(k))
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    let ids2 = ids.push(k);
    push_has(ids, k);
    assert forall|i: int, j: int| 0 <= i < ids2.len() && 0 <= j < ids2.len() && #[trigger] ids2[i] == #[trigger] ids2[j] implies i == j by {
        if i < ids.len() { assert(ids[i] < k); } if j < ids.len() { assert(ids[j] < k); }
    }
    assert forall|i: int| 0 <= i < ids2.len() implies 0 <= (#[trigger] ids2[i]) < k + 1 && c[i] == s[ids2[i]] && cyc(e, s[ids2[i]][0].i()) by {
        if i < ids.len() { assert(ids2[i] == ids[i]); }
    }
}
proof fn cycles_all(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, c: Seq<Seq<NodeIndex>>, ids: Seq<int>)
    requires is_sccs(e, n, s), edges_ok(e, n), cycles_upto(e, s, s.len() as int, c, ids)
    ensures cycles_ok(e, n, c)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() > 0 && cyc(e, c[i][0].i()) && c[i].no_duplicates() by {
        assert(0 <= ids[i] < s.len());
        let q = ids[i];
        assert forall|a: int, b: int| 0 <= a < s[q].len() && 0 <= b < s[q].len() && a != b implies s[q][a] != s[q][b] by { if s[q][a] == s[q][b] { assert(s[q][a].i() == s[q][b].i()); } }
    }
    assert forall|i: int, m: int| 0 <= i < c.len() implies (#[trigger] at(c[i], m) <==> comp(e, c[i][0].i()).contains(m)) by {
        assert(0 <= ids[i] < s.len());
        at_self(c[i], 0);
        scc_comp(e, n, s, ids[i], c[i][0].i());
    }
    assert forall|v: int| 0 <= v < n && #[trigger] cyc(e, v) implies member(c, v) by {
        assert(member(s, v));
        let j = choose|j: int| 0 <= j < s.len() && at(#[trigger] s[j], v);
        scc_cyc(e, n, s, j, v);
        at_self(s[j], 0);
        scc_cyc(e, n, s, j, s[j][0].i());
        if s[j].len() == 1 { let a = choose|a: int| 0 <= a < s[j].len() && (#[trigger] s[j][a]).i() == v; assert(a == 0); }
        assert(ids.contains(j));
        let i = choose|i: int| 0 <= i < ids.len() && ids[i] == j;
        assert(c[i] == s[ids[i]]);
        assert(at(c[i], v));
    }
    assert forall|i: int, j: int, m: int| 0 <= i < c.len() && 0 <= j < c.len() && #[trigger] at(c[i], m) && #[trigger] at(c[j], m) implies i == j by {
        assert(0 <= ids[i] < s.len() && 0 <= ids[j] < s.len());
        let a = choose|a: int| 0 <= a < c[i].len() && (#[trigger] c[i][a]).i() == m;
        let b = choose|b: int| 0 <= b < c[j].len() && (#[trigger] c[j][b]).i() == m;
        assert(s[ids[i]][a].i() == s[ids[j]][b].i());
        assert(ids[i] == ids[j]);
    }
}
// ---- graphs without recursion
proof fn topo_fit(n: nat, e: E2, nd0: Seq<Node>, nd: Seq<Node>, seen: ISet<int>, v: int, r: Option<Max>)
    requires
        0 <= v < n, !seen.contains(v), is_sup(succ(e, v), mxf(nd), r),
        forall|w: int| #[trigger] edge(e, v, w) ==> seen.contains(w),
        forall|w: int| #[trigger] seen.contains(w) ==> known(mx(nd, w)) <= psum(nd0, seen, n as int),
        psum(nd0, all(), n as int) <= u64::MAX,
    ensures (if r is Some { known(r->0) } else { 0 }) + fr(nd0, v) <= psum(nd0, seen.insert(v), n as int) <= u64::MAX
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    psum_insert(nd0, seen, v, n as int);
    psum_mono(nd0, seen.insert(v), all(), n as int);
    if r is Some {
        let w = choose|w: int| #[trigger] succ(e, v).contains(w) && known(mxf(nd)(w)) == known(r->0);
        assert(edge(e, v, w));
    }
}
proof fn heavy_step(e: E2, nd0: Seq<Node>, nd: Seq<Node>, v: int, r: Option<Max>, m: Max)
    requires
        is_sup(succ(e, v), mxf(nd), r),
        forall|w: int| #[trigger] edge(e, v, w) ==> is_heaviest(e, nd0, w, mx(nd, w)),
        m == plus(r, nd0[v].local),
        (if r is Some { known(r->0) } else { 0 }) + fr(nd0, v) <= u64::MAX,
    ensures is_heaviest(e, nd0, v, m)
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    assert(known(m) == (if r is Some { known(r->0) } else { 0 }) + fr(nd0, v));
    assert forall|p: Seq<int>| #[trigger] is_path(e, p) && p[0] == v implies weight(nd0, p) <= known(m) by {
        let q = p.drop_first();
        if q.len() > 0 {
            assert(edge(e, p[0], p[0int + 1]));
            assert forall|i: int| 0 <= i < q.len() - 1 implies edge(e, #[trigger] q[i], q[i + 1]) by { assert(q[i] == p[i + 1]); assert(q[i + 1] == p[i + 2]); }
            assert(is_path(e, q));
            assert(succ(e, v).contains(q[0]));
            assert(known(mxf(nd)(q[0])) <= known(r->0));
        } else { assert(weight(nd0, q) == 0); }
    }
    if r is Some {
        let w = choose|w: int| #[trigger] succ(e, v).contains(w) && known(mxf(nd)(w)) == known(r->0);
        assert(edge(e, v, w));
        let q = choose|q: Seq<int>| #[trigger] is_path(e, q) && q[0] == w && weight(nd0, q) == known(mx(nd, w));
        let p = seq![v] + q;
        assert forall|i: int| 0 <= i < p.len() - 1 implies edge(e, #[trigger] p[i], p[i + 1]) by { if i > 0 { assert(p[i] == q[i - 1]); assert(p[i + 1] == q[i]); } }
        assert(p.drop_first() =~= q);
        assert(is_path(e, p) && p[0] == v && weight(nd0, p) == known(m));
    } else {
        let p = seq![v];
        assert(p.drop_first() =~= Seq::<int>::empty());
        assert(weight(nd0, p.drop_first()) == 0);
        assert(is_path(e, p) && p[0] == v && weight(nd0, p) == known(m));
    }
    if exact(m) {
        assert forall|w: int| #[trigger] reach(e, v, w) implies lexact(nd0[w].local) by {
            reach_split(e, v, w);
            if v != w { let x = choose|x: int| #[trigger] edge(e, v, x) && reach(e, x, w); assert(succ(e, v).contains(x)); assert(exact(mxf(nd)(x))); }
        }
    }
    if forall|w: int| #[trigger] reach(e, v, w) ==> lexact(nd0[w].local) {
        reach_refl(e, v);
        assert forall|x: int| #[trigger] succ(e, v).contains(x) implies exact(mxf(nd)(x)) by {
            assert(edge(e, v, x));
            assert forall|w: int| #[trigger] reach(e, x, w) implies lexact(nd0[w].local) by { reach_cons(e, v, x, w); }
        }
    }
}
/// the functions handled so far are right
#[verifier::opaque]
pub open spec fn topo_ok(e: E2, n: nat, nd0: Seq<Node>, nd: Seq<Node>, seen: ISet<int>) -> bool {
    &&& forall|v: int| #[trigger] seen.contains(v) ==> 0 <= v < n && acyclic_ok(e, nd0, nd, v) && known(mx(nd, v)) <= psum(nd0, seen, n as int)
    &&& forall|v: int, w: int| #[trigger] edge(e, v, w) && seen.contains(v) ==> seen.contains(w)
    &&& forall|v: int| 0 <= v < n && !seen.contains(v) ==> (#[trigger] nd[v]).max is None
}
proof fn topo_done(e: E2, n: nat, nd0: Seq<Node>, nd: Seq<Node>, nd2: Seq<Node>, seen: ISet<int>, v: int)
    requires
        edges_ok(e, n), !cyclic(e), topo_ok(e, n, nd0, nd, seen),
        0 <= v < n, !seen.contains(v),
        forall|w: int| #[trigger] edge(e, v, w) ==> seen.contains(w),
        psum(nd0, all(), n as int) <= u64::MAX,
        plain_sums(e, v, nd0, nd, nd2),
        forall|w: int| 0 <= w < n && w != v ==> #[trigger] nd2[w] == nd[w],
    ensures topo_ok(e, n, nd0, nd2, seen.insert(v))
{ reveal(is_sccs); reveal(comps_ok); reveal(cycles_upto); reveal(is_sup); reveal(topo_ok); reveal(reach); reveal(cyc); reveal(cycles_ok); reveal(is_heaviest); reveal(exp_plain); reveal(exp_cycle);
    let r = choose|r: Option<Max>| #[trigger] is_sup(succ(e, v), mxf(nd), r) && nd2[v].max == Some(plus(r, nd0[v].local));
    topo_fit(n, e, nd0, nd, seen, v, r);
    assert forall|w: int| #[trigger] edge(e, v, w) implies is_heaviest(e, nd0, w, mx(nd, w)) by { assert(seen.contains(w)); }
    heavy_step(e, nd0, nd, v, r, mx(nd2, v));
    psum_mono(nd0, seen, seen.insert(v), n as int);
    let seen2 = seen.insert(v);
    assert forall|u: int| #[trigger] seen2.contains(u) implies 0 <= u < n && acyclic_ok(e, nd0, nd2, u) && known(mx(nd2, u)) <= psum(nd0, seen2, n as int) by {
        if u == v {
            assert forall|w: int| #[trigger] succ(e, v).contains(w) implies mxf(nd)(w) == mxf(nd2)(w) by { assert(edge(e, v, w)); assert(seen.contains(w)); assert(nd2[w] == nd[w]); }
            sup_frame(succ(e, v), mxf(nd), mxf(nd2), r);
            assert(mx(nd2, v) == plus(r, nd0[v].local));
        } else {
            assert(seen.contains(u)); assert(nd2[u] == nd[u]);
            let ru = choose|ru: Option<Max>| is_sup(succ(e, u), mxf(nd), ru) && mx(nd, u) == #[trigger] plus(ru, nd0[u].local);
            assert forall|w: int| #[trigger] succ(e, u).contains(w) implies mxf(nd)(w) == mxf(nd2)(w) by { assert(edge(e, u, w)); assert(seen.contains(w)); assert(nd2[w] == nd[w]); }
            sup_frame(succ(e, u), mxf(nd), mxf(nd2), ru);
            assert(mx(nd2, u) == plus(ru, nd0[u].local));
        }
    }
    assert forall|u: int, w: int| #[trigger] edge(e, u, w) && seen2.contains(u) implies seen2.contains(w) by {}
}

// ---- what the block needs of the opaque definitions
proof fn scc_basic(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int)
    requires is_sccs(e, n, s), 0 <= k < s.len()
    ensures s[k].len() > 0, forall|i: int| 0 <= i < s[k].len() ==> (#[trigger] s[k][i]).i() < n
{ reveal(is_sccs); }
proof fn comps_get(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int, nd0: Seq<Node>, nd: Seq<Node>)
    requires comps_ok(e, n, s, k, nd0, nd)
    ensures forall|v: int| #[trigger] upto(s, k).contains(v) ==> 0 <= v < n && nd[v].max is Some
{ reveal(comps_ok); reveal(exp_plain); reveal(exp_cycle); }
proof fn comps_none(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, nd0: Seq<Node>, nd: Seq<Node>)
    ensures comps_ok(e, n, s, 0, nd0, nd), cycles_upto(e, s, 0, Seq::empty(), Seq::empty())
{ reveal(comps_ok); reveal(cycles_upto); }
proof fn comps_end(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, nd0: Seq<Node>, nd: Seq<Node>)
    requires is_sccs(e, n, s), comps_ok(e, n, s, s.len() as int, nd0, nd)
    ensures forall|v: int| 0 <= v < n ==> #[trigger] expected(e, nd0, nd, v)
{
    reveal(comps_ok); reveal(is_sccs);
    assert forall|v: int| 0 <= v < n implies #[trigger] expected(e, nd0, nd, v) by { assert(member(s, v)); assert(upto(s, s.len() as int).contains(v)); }
}
proof fn plain_next(e: E2, n: nat, s: Seq<Seq<NodeIndex>>, k: int)
    requires is_sccs(e, n, s), edges_ok(e, n), 0 <= k < s.len(), !cyc(e, s[k][0].i())
    ensures s[k].len() == 1, forall|w: int| #[trigger] edge(e, s[k][0].i(), w) ==> upto(s, k).contains(w)
{
    scc_basic(e, n, s, k);
    let v = s[k][0].i();
    at_self(s[k], 0);
    scc_cyc(e, n, s, k, v);
    scc_next(e, n, s, k);
    assert forall|w: int| #[trigger] edge(e, v, w) implies upto(s, k).contains(w) by {
        if at(s[k], w) { let a = choose|a: int| 0 <= a < s[k].len() && (#[trigger] s[k][a]).i() == w; assert(a == 0); }
    }
}
proof fn cycles_skip(e: E2, s: Seq<Seq<NodeIndex>>, k: int, c: Seq<Seq<NodeIndex>>, ids: Seq<int>)
    requires 0 <= k < s.len(), cycles_upto(e, s, k, c, ids), !cyc(e, s[k][0].i())
    ensures cycles_upto(e, s, k + 1, c, ids)
{ reveal(cycles_upto); }
proof fn topo_none(e: E2, n: nat, nd0: Seq<Node>)
    requires forall|v: int| 0 <= v < n ==> (#[trigger] nd0[v]).max is None
    ensures topo_ok(e, n, nd0, nd0, ISet::empty())
{ reveal(topo_ok); }
proof fn topo_get(e: E2, n: nat, nd0: Seq<Node>, nd: Seq<Node>, seen: ISet<int>)
    requires topo_ok(e, n, nd0, nd, seen)
    ensures
        forall|v: int| #[trigger] seen.contains(v) ==> 0 <= v < n && nd[v].max is Some && acyclic_ok(e, nd0, nd, v) && known(mx(nd, v)) <= psum(nd0, seen, n as int),
        forall|v: int| 0 <= v < n && !seen.contains(v) ==> (#[trigger] nd[v]).max is None,
{ reveal(topo_ok); }
proof fn cycles_none(e: E2, n: nat)
    ensures !cyclic(e) ==> cycles_ok(e, n, Seq::empty())
{ reveal(cycles_ok); }
