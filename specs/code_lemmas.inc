pub proof fn begin(E: Env, n0: Seq<Node>, e0: E2, k0: int)
    requires k0 == n0.len(), forall|x: int, y: int| y >= k0 ==> #[trigger] ec(e0, x, y) == 0
    ensures frames(E, ISet::empty(), n0, n0), agreed(E, ISet::empty(), n0), calls(E, ISet::empty(), k0, e0, e0), unknown(E, ISet::empty(), k0, IMap::empty(), n0, e0)
{
    assert forall|x: int, y: int| y < k0 implies (#[trigger] ec(e0, x, y) > 0 <==> ec(e0, x, y) > 0 || called(E, ISet::empty(), x, y)) by {
        if called(E, ISet::empty(), x, y) { let a = choose|a: u64| #[trigger] own(E, ISet::empty(), x, a) && tgt(E, a, y); assert(false); }
    }
    assert forall|x: int, y: int| y >= k0 implies (#[trigger] ec(e0, x, y) > 0 <==> q_edge(E, IMap::empty(), x, y)) by {}
}
pub proof fn no_edges(g: DiGraph<Node, ()>, k0: int)
    requires g.wf(), k0 >= g.nodes().len()
    ensures forall|x: int, y: int| y >= k0 || x >= k0 ==> #[trigger] ec(g.edges(), x, y) == 0
{
    assert forall|x: int, y: int| y >= k0 || x >= k0 implies #[trigger] ec(g.edges(), x, y) == 0 by {
        ec_edge(g.edges(), x, y);
        if edge(g.edges(), x, y) { let k = choose|k: int| 0 <= k < g.edges().len() && g.edges()[k] == (x, y); assert(g.edges()[k].0 < g.nodes().len()); assert(g.edges()[k].1 < g.nodes().len()); }
    }
}
pub proof fn grow_start(e: E2, c: NodeIndex, k0: int)
    ensures grown(e, e, c, k0, ISet::empty())
{}
pub proof fn grow_step(e2: E2, e3: E2, e: E2, c: NodeIndex, k0: int, T: ISet<int>, y: int)
    requires grown(e2, e3, c, k0, T), simple(e3), y < k0, (ec(e3, c.i(), y) > 0 && e == e3) || (ec(e3, c.i(), y) == 0 && e == e3.push((c.i(), y)))
    ensures grown(e2, e, c, k0, T.insert(y)), simple(e)
{
    ec_push(e3, (c.i(), y));
    assert forall|z: int| z < k0 implies (#[trigger] ec(e, c.i(), z) > 0 <==> ec(e2, c.i(), z) > 0 || T.insert(y).contains(z)) by { assert(ec(e3, c.i(), z) > 0 <==> ec(e2, c.i(), z) > 0 || T.contains(z)); }
    assert forall|x: int, z: int| !(x == c.i() && z < k0) implies #[trigger] ec(e, x, z) == ec(e2, x, z) by { assert(ec(e3, x, z) == ec(e2, x, z)); }
    assert forall|x: int, z: int| #[trigger] ec(e, x, z) <= 1 by { assert(ec(e3, x, z) <= 1); }
}
pub proof fn seen_step(s3: ISet<NodeIndex>, s: ISet<NodeIndex>, k0: int, e3: E2, e: E2, c: NodeIndex, x: NodeIndex)
    requires seen(s3, k0, e3, c), x.i() < k0, (s3.contains(x) && s == s3 && e == e3) || (!s3.contains(x) && s == s3.insert(x) && e == e3.push((c.i(), x.i())))
    ensures seen(s, k0, e, c)
{
    ec_push(e3, (c.i(), x.i()));
    assert forall|z: NodeIndex| z.i() < k0 implies (#[trigger] s.contains(z) <==> ec(e, c.i(), z.i()) > 0) by { assert(s3.contains(z) <==> ec(e3, c.i(), z.i()) > 0); if z.i() == x.i() { assert(z == x); } }
}
pub proof fn seen_at(s: ISet<NodeIndex>, k0: int, e: E2, c: NodeIndex, x: NodeIndex)
    requires seen(s, k0, e, c), x.i() < k0
    ensures s.contains(x) <==> ec(e, c.i(), x.i()) > 0
{}
pub proof fn seen_start(em: IMap<NodeIndex, VxSet<NodeIndex>>, k0: int, e1: E2, e2: E2, c: NodeIndex, s: VxSet<NodeIndex>)
    requires seen_ok(em, k0, e1), em.contains_key(c) ==> s == em[c], !em.contains_key(c) ==> s.s() == ISet::<NodeIndex>::empty(), forall|x: int, y: int| y < k0 ==> #[trigger] ec(e2, x, y) == ec(e1, x, y)
    ensures seen(s.s(), k0, e2, c)
{
    assert forall|x: NodeIndex| x.i() < k0 implies (#[trigger] s.s().contains(x) <==> ec(e2, c.i(), x.i()) > 0) by { if em.contains_key(c) { assert(em[c].s().contains(x) <==> ec(e1, c.i(), x.i()) > 0); } else { assert(ec(e1, c.i(), x.i()) == 0); } }
}
pub proof fn seen_end(em1: IMap<NodeIndex, VxSet<NodeIndex>>, em: IMap<NodeIndex, VxSet<NodeIndex>>, k0: int, e1: E2, e2: E2, e: E2, c: NodeIndex, T: ISet<int>)
    requires seen_ok(em1, k0, e1), em.contains_key(c), em == em1.insert(c, em[c]), seen(em[c].s(), k0, e, c), grown(e2, e, c, k0, T), forall|x: int, y: int| y < k0 ==> #[trigger] ec(e2, x, y) == ec(e1, x, y)
    ensures seen_ok(em, k0, e)
{
    assert forall|a: NodeIndex, x: NodeIndex| em.contains_key(a) && x.i() < k0 implies (#[trigger] em[a].s().contains(x) <==> ec(e, a.i(), x.i()) > 0) by {
        if a != c { assert(a.i() != c.i()); assert(em1.contains_key(a) && em[a] == em1[a]); assert(em1[a].s().contains(x) <==> ec(e1, a.i(), x.i()) > 0); assert(ec(e, a.i(), x.i()) == ec(e2, a.i(), x.i())); }
    }
    assert forall|a: NodeIndex, x: NodeIndex| !em.contains_key(a) && x.i() < k0 implies #[trigger] ec(e, a.i(), x.i()) == 0 by { assert(a.i() != c.i()) by { if a.i() == c.i() { assert(a == c); } } assert(!em1.contains_key(a)); assert(ec(e1, a.i(), x.i()) == 0); assert(ec(e, a.i(), x.i()) == ec(e2, a.i(), x.i())); }
}
pub open spec fn bl_to(E: Env, A: u64, bl: Seq<i32>, q: int, y: int) -> bool { exists|j: int| 0 <= j < q && dest(E, A + #[trigger] bl[j], y) }
pub open spec fn b_to(E: Env, A: u64, bb: Seq<i32>, q: int, y: int) -> bool { exists|j: int| 0 <= j < q && out(E, A, #[trigger] bb[j]) && dest(E, A + bb[j], y) }
pub proof fn bl_step(E: Env, A: u64, bl: Seq<i32>, q: int, z: int)
    requires 0 <= q < bl.len(), dest(E, A + bl[q], z)
    ensures forall|y: int| #[trigger] bl_to(E, A, bl, q + 1, y) <==> bl_to(E, A, bl, q, y) || y == z
{
    assert forall|y: int| #[trigger] bl_to(E, A, bl, q + 1, y) <==> bl_to(E, A, bl, q, y) || y == z by { if y == z { assert(dest(E, A + bl[q], y)); } if bl_to(E, A, bl, q, y) { let j = choose|j: int| 0 <= j < q && dest(E, A + #[trigger] bl[j], y); assert(j < q + 1); } }
}
pub proof fn b_step(E: Env, A: u64, bb: Seq<i32>, q: int)
    requires 0 <= q < bb.len()
    ensures forall|y: int| #[trigger] b_to(E, A, bb, q + 1, y) <==> b_to(E, A, bb, q, y) || (out(E, A, bb[q]) && dest(E, A + bb[q], y))
{
    assert forall|y: int| #[trigger] b_to(E, A, bb, q + 1, y) <==> b_to(E, A, bb, q, y) || (out(E, A, bb[q]) && dest(E, A + bb[q], y)) by { if b_to(E, A, bb, q, y) { let j = choose|j: int| 0 <= j < q && out(E, A, #[trigger] bb[j]) && dest(E, A + bb[j], y); assert(j < q + 1); } }
}
pub proof fn tgts(E: Env, A: u64, y: int)
    ensures tgt(E, A, y) <==> bl_to(E, A, code_of(E, A).bls, code_of(E, A).bls.len() as int, y) || b_to(E, A, code_of(E, A).bs, code_of(E, A).bs.len() as int, y)
{}
pub proof fn frames_step(E: Env, D: ISet<u64>, a: u64, k0: int, n0: Seq<Node>, n1: Seq<Node>, n: Seq<Node>)
    requires
        wide(E, n0, k0), E.fm.contains_key(a), !D.contains(a), forall|b: u64| #[trigger] D.contains(b) ==> E.fm.contains_key(b), frames(E, D, n0, n1), n1.len() <= n.len(),
        n[caller_of(E, a).i()] == (Node { local: fixed(E, a, n0[caller_of(E, a).i()].local), ..n0[caller_of(E, a).i()] }), forall|i: int| 0 <= i < n0.len() && i != caller_of(E, a).i() ==> #[trigger] n[i] == n1[i],
    ensures frames(E, D.insert(a), n0, n)
{
    let D1 = D.insert(a);
    assert(placed_at(E, k0, a));
    assert forall|b: u64| #[trigger] D1.contains(b) implies n[caller_of(E, b).i()] == (Node { local: fixed(E, b, n0[caller_of(E, b).i()].local), ..n0[caller_of(E, b).i()] }) by {
        if b != a { assert(D.contains(b)); assert(E.fm.contains_key(b)); assert(placed_at(E, k0, b)); if caller_of(E, a).i() == caller_of(E, b).i() { assert(caller_of(E, a) == caller_of(E, b)); assert(false); } }
    }
    assert forall|i: int| 0 <= i < n0.len() && !(exists|b: u64| #[trigger] own(E, D1, i, b)) implies #[trigger] n[i] == n0[i] by {
        assert(own(E, D1, caller_of(E, a).i(), a));
        if exists|b: u64| #[trigger] own(E, D, i, b) { let b = choose|b: u64| #[trigger] own(E, D, i, b); assert(own(E, D1, i, b)); }
    }
}
pub proof fn untouched(E: Env, D: ISet<u64>, a: u64, k0: int, n0: Seq<Node>, n1: Seq<Node>)
    requires wide(E, n0, k0), E.fm.contains_key(a), !D.contains(a), forall|b: u64| #[trigger] D.contains(b) ==> E.fm.contains_key(b), frames(E, D, n0, n1)
    ensures n1[caller_of(E, a).i()] == n0[caller_of(E, a).i()], n0.len() <= n1.len(), caller_of(E, a).i() < n0.len()
{
    assert(placed_at(E, k0, a));
    let i = caller_of(E, a).i();
    if exists|b: u64| #[trigger] own(E, D, i, b) { let b = choose|b: u64| #[trigger] own(E, D, i, b); assert(E.fm.contains_key(b)); assert(caller_of(E, b) == caller_of(E, a)); }
}
pub proof fn agreed_step(E: Env, D: ISet<u64>, a: u64, n0: Seq<Node>)
    requires agreed(E, D, n0), agree(E, a, n0[caller_of(E, a).i()].local)
    ensures agreed(E, D.insert(a), n0)
{}
pub proof fn calls_step(E: Env, D: ISet<u64>, a: u64, k0: int, e0: E2, e1: E2, e2: E2, e: E2, T: ISet<int>)
    requires calls(E, D, k0, e0, e1), forall|x: int, y: int| y < k0 ==> #[trigger] ec(e2, x, y) == ec(e1, x, y), grown(e2, e, caller_of(E, a), k0, T), forall|y: int| #[trigger] T.contains(y) <==> tgt(E, a, y)
    ensures calls(E, D.insert(a), k0, e0, e)
{
    let (D1, c) = (D.insert(a), caller_of(E, a).i());
    assert forall|x: int, y: int| y < k0 implies (#[trigger] ec(e, x, y) > 0 <==> ec(e0, x, y) > 0 || called(E, D1, x, y)) by {
        assert(ec(e2, x, y) == ec(e1, x, y));
        assert(ec(e1, x, y) > 0 <==> ec(e0, x, y) > 0 || called(E, D, x, y));
        if called(E, D, x, y) { let b = choose|b: u64| #[trigger] own(E, D, x, b) && tgt(E, b, y); assert(own(E, D1, x, b)); }
        if x == c { assert(own(E, D1, x, a)); assert(T.contains(y) <==> tgt(E, a, y)); }
        if called(E, D1, x, y) { let b = choose|b: u64| #[trigger] own(E, D1, x, b) && tgt(E, b, y); if b != a { assert(own(E, D, x, b)); } }
        if x != c { assert(ec(e, x, y) == ec(e2, x, y)); }
    }
}
pub proof fn unknown_step(E: Env, D: ISet<u64>, a: u64, k0: int, qp: IMap<u64, int>, n1: Seq<Node>, n: Seq<Node>, g1: DiGraph<Node, ()>, e2: E2, e: E2, T: ISet<int>)
    requires
        unknown(E, D, k0, qp, n1, g1.edges()), g1.wf(), n1 == g1.nodes(), k0 <= n1.len(), !D.contains(a), grown(e2, e, caller_of(E, a), k0, T),
        !wq(E, a) ==> n.len() == n1.len() && e2 == g1.edges(), forall|i: int| k0 <= i < n1.len() ==> #[trigger] n[i] == n1[i],
        wq(E, a) ==> n.len() == n1.len() + 1 && is_q(n.last()) && e2 == g1.edges().push((caller_of(E, a).i(), n1.len() as int)),
    ensures unknown(E, D.insert(a), k0, if wq(E, a) { qp.insert(a, n1.len() as int) } else { qp }, n, e)
{
    let (D1, qp1, c, k) = (D.insert(a), if wq(E, a) { qp.insert(a, n1.len() as int) } else { qp }, caller_of(E, a).i(), n1.len() as int);
    assert(!qp.contains_key(a));
    no_edges(g1, k);
    ec_push(g1.edges(), (c, k));
    assert forall|b: u64| #[trigger] qp1.contains_key(b) <==> D1.contains(b) && wq(E, b) by { assert(qp.contains_key(b) <==> D.contains(b) && wq(E, b)); }
    assert forall|i: int| k0 <= i < n.len() implies is_q(#[trigger] n[i]) && q_node(qp1, i) by {
        if i < k { assert(is_q(n1[i])); assert(q_node(qp, i)); let b = choose|b: u64| #[trigger] qp.contains_key(b) && qp[b] == i; assert(qp1.contains_key(b) && qp1[b] == i); } else { assert(qp1.contains_key(a)); }
    }
    assert forall|x: int, y: int| y >= k0 implies (#[trigger] ec(e, x, y) > 0 <==> q_edge(E, qp1, x, y)) by {
        assert(ec(e, x, y) == ec(e2, x, y));
        assert(ec(g1.edges(), x, y) > 0 <==> q_edge(E, qp, x, y));
        if q_edge(E, qp, x, y) { let b = choose|b: u64| #[trigger] qp.contains_key(b) && caller_of(E, b).i() == x && qp[b] == y; assert(qp1.contains_key(b) && qp1[b] == y); }
        if wq(E, a) && x == c && y == k { assert(qp1.contains_key(a) && qp1[a] == k); }
        if q_edge(E, qp1, x, y) { let b = choose|b: u64| #[trigger] qp1.contains_key(b) && caller_of(E, b).i() == x && qp1[b] == y; if b != a { assert(qp.contains_key(b) && qp[b] == y); } }
    }
}
pub proof fn simple_q(e: E2, g: DiGraph<Node, ()>, c: int)
    requires g.wf(), simple(g.edges()), e == g.edges().push((c, g.nodes().len() as int))
    ensures simple(e), forall|x: int, y: int| y < g.nodes().len() ==> #[trigger] ec(e, x, y) == ec(g.edges(), x, y)
{
    no_edges(g, g.nodes().len() as int);
    ec_push(g.edges(), (c, g.nodes().len() as int));
    assert forall|x: int, y: int| #[trigger] ec(e, x, y) <= 1 by { assert(ec(g.edges(), x, y) <= 1); }
}
