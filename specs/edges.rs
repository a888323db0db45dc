// C11, C17, C18 (and the callers' part of C10, C20): the edges that come from the LLVM-IR
//@@spec Target_is_thumb
    ensures ret == (*self is Thumbv6m || *self is Thumbv7m), //#C18
//@@spec fn_Node
    ensures
        ret.name == name.vx_s(), ret.max is None, ret.dashed == dashed,
        stack is None ==> ret.local is Unknown, stack is Some ==> ret.local == Local::Exact(stack->0), //#C19 C20 a recorded frame is the frame of the node
//@@spec block_edges
    requires
        pre(g, indices.m(), aliases.m(), indirects.m()),
    ensures
        forall|c: NodeIndex, s: Stmt<'a>| body(aliases.m(), indices.m(), defines.m(), c, s) ==> #[trigger] ok(env(aliases.m(), indices.m(), indirects.m(), target_, symbols.undefined.s(), has_untyped_symbols), ret.0.edges(), ret.1.m(), ret.2.m(), c, s), //#C11 C18 C10 C20 every call statement of a live function has its edges
        sound(env(aliases.m(), indices.m(), indirects.m(), target_, symbols.undefined.s(), has_untyped_symbols), bodies(aliases.m(), indices.m(), defines.m()), ret.0.edges(), ret.1.m()), //#C18 C10 C11 every edge comes from a call statement
        simple(ret.0.edges()), //#C17 at most one edge per pair
        seen_ok(ret.3.m(), ret.0.edges()), //#C17 the edges made are on record
        fresh_ok(g.nodes(), indices.m(), ret.0.nodes(), ret.1.m()), //#C11 C20 C10 only functions the linker did not define are added, one node per name
        ret.0.wf(), forall|k: VxStr| #[trigger] ret.1.m().contains_key(k) ==> ret.0.has(ret.1.m()[k]),
        ind_ok(env(aliases.m(), indices.m(), indirects.m(), target_, symbols.undefined.s(), has_untyped_symbols), bodies(aliases.m(), indices.m(), defines.m()), ret.2.m()), //#C10 who calls through which signature
        forall|n: VxStr| #[trigger] ret.4.s().contains(n) <==> live_name(aliases.m(), defines.m(), n), //#C02 C19 the functions described by the LLVM-IR
        forall|n: VxStr| #[trigger] ret.5.s().contains(n) <==> asm_name(aliases.m(), defines.m(), n), //#C19 the functions that contain inline assembly
//@@proof block_edges.entry
    hide(starts); hide(ec); hide(joined); hide(covers); hide(sound); hide(simple); hide(rec); hide(linked); hide(seen_but); hide(seen_ok); hide(fresh_ok); hide(ind_ok); hide(wants);
    let ghost E = env(aliases.m(), indices.m(), indirects.m(), target_, symbols.undefined.s(), has_untyped_symbols);
    let ghost g0 = g;
    let ghost n0 = g.nodes();
    let ghost mut P = ISet::<(NodeIndex, Stmt<'a>)>::empty();
//@@proof block_edges.0.before
    let ghost ds = vx_it_L0.rest();
    let ghost mut k = 0int;
    proof { begin(E, g); }
//@@inv block_edges.0
    invariant
        E == env(aliases.m(), E.im0, E.id0, target_, symbols.undefined.s(), has_untyped_symbols), pre(g0, E.im0, E.al, E.id0), n0 == g0.nodes(),
        0 <= k <= ds.len(), vx_it_L0.rest() =~= ds.skip(k),
        forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) <==> from(E, ds, k, c, s), //#C11 every statement of the functions so far has been looked at
        covers(E, P, g.edges(), indices.m(), indirects.m()), //#C11 C18 C10 C20 every call statement so far has its edges
        sound(E, P, g.edges(), indices.m()), //#C18 C10 C11 every edge comes from a call statement
        simple(g.edges()), //#C17 at most one edge per pair
        seen_ok(edges.m(), g.edges()), //#C17 the edges made are on record
        fresh_ok(n0, E.im0, g.nodes(), indices.m()), //#C11 C20 C10 only functions the linker did not define are added
        g.wf(), forall|x: VxStr| #[trigger] indices.m().contains_key(x) ==> g.has(indices.m()[x]),
        ind_ok(E, P, indirects.m()), //#C10 who calls through which signature
        forall|n: VxStr| #[trigger] defined.s().contains(n) <==> live_in(E.al, ds, k, n), //#C02 C19 the functions described by the LLVM-IR
        forall|n: VxStr| #[trigger] fns_containing_asm.s().contains(n) <==> asm_in(E.al, ds, k, n), //#C19 the functions that contain inline assembly
    ensures
        k == ds.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_edges.0.top
    let ghost P0 = P;
    let ghost k0 = k;
    let ghost em0 = edges.m();
    let ghost d = if k < ds.len() { Some(*ds[k]) } else { None };
    proof { if k < ds.len() { assert(ds.skip(k)[0] == ds[k]); assert(ds.skip(k).drop_first() =~= ds.skip(k + 1)); from_step(E, ds, k); k = k + 1; } }
//@@proof block_edges.0.after
    proof { in_defines(E, defines.m(), ds); all_bodies(P, aliases.m(), E.im0, defines.m(), E, g.edges(), indices.m(), indirects.m()); }
//@@proof block_edges.1.after
    proof { has_among(d->0.stmts@, ss); assert(d->0 == *ds[k0]); }
//@@proof block_edges.1.before
    let ghost ss = vx_it_L1.rest();
    let ghost mut q = 0int;
//@@inv block_edges.1
    invariant
        E == env(aliases.m(), E.im0, E.id0, target_, symbols.undefined.s(), has_untyped_symbols), pre(g0, E.im0, E.al, E.id0), n0 == g0.nodes(),
        0 <= q <= ss.len(), vx_it_L1.rest() =~= ss.skip(q), ss.len() == d->0.stmts@.len(), forall|i: int| 0 <= i < ss.len() ==> *(#[trigger] ss[i]) == d->0.stmts@[i],
        E.im0.contains_key(**canonical_name), caller == E.im0[**canonical_name], g.has(caller),
        forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) <==> P0.contains((c, s)) || (c == caller && among(ss, q, s)), //#C11 every statement of the function so far has been looked at
        covers(E, P, g.edges(), indices.m(), indirects.m()), //#C11 C18 C10 C20 every call statement so far has its edges
        sound(E, P, g.edges(), indices.m()), //#C18 C10 C11 every edge comes from a call statement
        rec(em0, caller, callees_seen.s(), g.edges()), //#C17 the edges made are on record, at most one edge per pair
        fresh_ok(n0, E.im0, g.nodes(), indices.m()), //#C11 C20 C10 only functions the linker did not define are added
        g.wf(), forall|x: VxStr| #[trigger] indices.m().contains_key(x) ==> g.has(indices.m()[x]),
        ind_ok(E, P, indirects.m()), //#C10 who calls through which signature
        forall|n: VxStr| #[trigger] fns_containing_asm.s().contains(n) <==> asm_in(E.al, ds, k0, n) || (n == **canonical_name && asm_among(ss, q)), //#C19 the functions that contain inline assembly
    ensures
        q == ss.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_edges.1.top
    let ghost P1 = P;
    let ghost mut el = g.edges();
    proof { if q < ss.len() {
        assert(ss.skip(q)[0] == ss[q]); assert(ss.skip(q).drop_first() =~= ss.skip(q + 1)); among_step(ss, q); assert(who(caller, *ss[q]));
        if *ss[q] is DirectCall { no_mem(*ss[q]->DirectCall_0); }
        link_start(E, P1, em0, caller, *ss[q], callees_seen.s(), g.edges(), indices.m(), indirects.m());
        P = P.insert((caller, *ss[q])); q = q + 1;
    } }
//@@proof block_edges.2.before
    let ghost id1 = indirects.m();
    let ghost ks = indirects.ks();
//@@proof block_edges.link
    proof { assert(linked(E, P, P1, em0, caller, callees_seen.s(), g.edges(), indices.m(), indirects.m())); assert(forall|b: NodeIndex| joined(el, caller, b) ==> #[trigger] joined(g.edges(), caller, b)); el = g.edges(); }
//@@inv block_edges.2
    invariant
        0 <= vx_i_L2 <= vx_n_L2, vx_n_L2 == ks.len(), indirects.ks() == ks, distinct(ks),
        forall|i: int| 0 <= i < ks.len() ==> id1.contains_key(#[trigger] ks[i]),
        forall|k: FnSig<'a>| #[trigger] indirects.m().contains_key(k) <==> id1.contains_key(k),
        forall|i: int| 0 <= i < vx_i_L2 ==> called_from(id1[#[trigger] ks[i]], indirects.m()[ks[i]], ks[i], *sig, caller), //#C10 every known function that fits is called
        forall|i: int| vx_i_L2 <= i < ks.len() ==> indirects.m()[#[trigger] ks[i]] == id1[ks[i]],
        matched <==> exists|i: int| 0 <= i < vx_i_L2 && fits(id1[ks[i]], #[trigger] ks[i], *sig), //#C10 some known function fits
    ensures
        vx_i_L2 == vx_n_L2,
    decreases vx_n_L2 - vx_i_L2
//@@proof block_edges.2.after
    proof { all_called(E, P1, id1, indirects.m(), ks, *sig, caller, g.edges(), indices.m()); }
//@@code
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
//@@include strs.inc
//@@include iter0.inc
//@@include stops.inc
//@@include maps.inc
//@@include graph0.inc
//@@include ecount.inc
//@@include sets.inc
//@@insert Local
//@@insert Max
//@@insert Node
//@@insert Target
//@@insert Indirect
impl Target {
//@@insert Target_is_thumb
}
//@@insert fn_Node
impl VxDefault for Indirect { open spec fn vx_is_default(&self) -> bool { !self.called && self.callers.s() == ISet::<NodeIndex>::empty() && self.callees.s() == ISet::<NodeIndex>::empty() } }
/// a signature; compatibility is the contract of unit sig (C09)
pub struct FnSig<'a> { pub inputs: Vec<Type<'a>>, pub output: Option<Box<Type<'a>>> }
#[verifier::external_body]
pub struct Type<'a> { x: core::marker::PhantomData<&'a u8> }
pub uninterp spec fn loose(a: FnSig, b: FnSig) -> bool;
impl<'a> FnSig<'a> {
    #[verifier::external_body]
    pub fn loosely_equal(&self, o: &FnSig<'a>) -> (r: bool)
        ensures r == loose(*self, *o)
    { unimplemented!() }
}
impl<'a> Clone for FnSig<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
impl<'a> VxBorrow<FnSig<'a>> for FnSig<'a> { open spec fn vx_key(&self) -> FnSig<'a> { *self } }
//@@insert Define
//@@insert Stmt
pub struct Symbols { pub undefined: VxSet<VxStr> }
// ------------------------------------------------------------------ what the IR says
pub type Im = IMap<VxStr, NodeIndex>;
pub ghost struct Env<'a> { pub al: IMap<VxStr, &'a VxStr>, pub im0: Im, pub id0: IMap<FnSig<'a>, Indirect>, pub thumb: bool, pub undef: ISet<VxStr>, pub untyped: bool }
pub open spec fn env<'a>(al: IMap<VxStr, &'a VxStr>, im0: Im, id0: IMap<FnSig<'a>, Indirect>, t: Target, undef: ISet<VxStr>, untyped: bool) -> Env<'a>
{ Env { al, im0, id0, thumb: t is Thumbv6m || t is Thumbv7m, undef, untyped } }
/// established where the functions are collected (unit nodes, C20)
pub open spec fn pre<'a>(g: DiGraph<Node, ()>, im: Im, al: IMap<VxStr, &'a VxStr>, id: IMap<FnSig<'a>, Indirect>) -> bool {
    &&& g.wf() && g.edges().len() == 0
    &&& forall|k: VxStr| #[trigger] im.contains_key(k) ==> g.has(im[k])
    &&& forall|k: VxStr| #[trigger] al.contains_key(k) <==> im.contains_key(k)
    &&& forall|k: VxStr| #[trigger] al.contains_key(k) ==> im.contains_key(*al[k]) && im[*al[k]] == im[k]
    &&& forall|s: FnSig<'a>| #[trigger] id.contains_key(s) ==> !id[s].called && id[s].callers.s() == ISet::<NodeIndex>::empty()
}
/// no-ops, hints and intrinsics that lower to machine instructions
pub open spec fn emits_nothing(f: VxStr) -> bool {
    ||| f == lit("llvm.dbg.value") || f == lit("llvm.dbg.declare") || f == lit("llvm.assume") || f == lit("llvm.trap")
    ||| starts(f@, "llvm.lifetime.start"@) || starts(f@, "llvm.lifetime.end"@)
    ||| f == lit("llvm.experimental.noalias.scope.decl")
    ||| starts(f@, "llvm.abs."@) || starts(f@, "llvm.bswap."@) || starts(f@, "llvm.ctlz."@) || starts(f@, "llvm.cttz."@)
    ||| starts(f@, "llvm.sadd.with.overflow."@) || starts(f@, "llvm.smul.with.overflow."@) || starts(f@, "llvm.ssub.with.overflow."@)
    ||| starts(f@, "llvm.uadd.sat."@) || starts(f@, "llvm.uadd.with.overflow."@) || starts(f@, "llvm.umax."@) || starts(f@, "llvm.umin."@)
    ||| starts(f@, "llvm.umul.with.overflow."@) || starts(f@, "llvm.usub.sat."@) || starts(f@, "llvm.usub.with.overflow."@)
    ||| starts(f@, "llvm.vector.reduce."@) || starts(f@, "llvm.x86.sse2.pmovmskb."@) || f == lit("llvm.x86.sse2.pause")
}
pub open spec fn llvm(f: VxStr) -> bool { starts(f@, "llvm."@) }
/// 0: memcpy, 1: memmove, 2: memset, 3: not a memory intrinsic
pub open spec fn family(f: VxStr) -> int {
    if starts(f@, "llvm.memcpy."@) { 0 } else if starts(f@, "llvm.memmove."@) { 1 } else if starts(f@, "llvm.memset."@) { 2 } else { 3 }
}
/// the library routine n belongs to the family
pub open spec fn routine(fam: int, n: VxStr) -> bool {
    if fam == 0 { n == lit("memcpy") || n == lit("__aeabi_memcpy") || n == lit("__aeabi_memcpy4") || n == lit("__aeabi_memcpy8") }
    else if fam == 1 { n == lit("memmove") || n == lit("__aeabi_memmove") || n == lit("__aeabi_memmove4") || n == lit("__aeabi_memmove8") }
    else if fam == 2 {
        ||| n == lit("memset") || n == lit("__aeabi_memset") || n == lit("__aeabi_memset4") || n == lit("__aeabi_memset8")
        ||| n == lit("memclr") || n == lit("__aeabi_memclr") || n == lit("__aeabi_memclr4") || n == lit("__aeabi_memclr8")
    } else { false }
}
/// there is an edge from c to the function named f
pub open spec fn hit(e: E2, im: Im, c: NodeIndex, f: VxStr) -> bool { im.contains_key(f) && joined(e, c, im[f]) }
pub open spec fn joined(e: E2, c: NodeIndex, b: NodeIndex) -> bool { ec(e, c.i(), b.i()) > 0 }
pub open spec fn is_fn(im: Im, f: VxStr, b: int) -> bool { im.contains_key(f) && im[f].i() == b }
/// a known function has a signature that fits
pub open spec fn hits<'a>(E: Env<'a>, k: FnSig<'a>, sig: FnSig<'a>) -> bool { E.id0.contains_key(k) && (exists|x: NodeIndex| E.id0[k].callees.s().contains(x)) && loose(k, sig) }
/// a call through sig goes through the function-pointer node of k
pub open spec fn wants<'a>(E: Env<'a>, k: FnSig<'a>, sig: FnSig<'a>) -> bool { hits(E, k, sig) || (E.untyped && k == sig && forall|h: FnSig<'a>| !#[trigger] hits(E, h, sig)) }
/// the statement s of function c has all its edges
pub open spec fn ok<'a>(E: Env<'a>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>, c: NodeIndex, s: Stmt<'a>) -> bool {
    match s {
        Stmt::BitcastCall(f) => f is Some && hit(e, im, c, *f->0),
        Stmt::DirectCall(f) => {
            ||| emits_nothing(*f)
            ||| E.thumb && llvm(*f)
            ||| family(*f) < 3 && forall|n: VxStr| routine(family(*f), n) && #[trigger] E.im0.contains_key(n) ==> hit(e, im, c, n)
            ||| *f == lit("memcmp") && !E.im0.contains_key(*f)
            ||| !llvm(*f) && (E.al.contains_key(*f) || E.undef.contains(*f)) && hit(e, im, c, *f)
        }
        Stmt::IndirectCall(sig) => forall|k: FnSig<'a>| #[trigger] wants(E, k, sig) ==> id.contains_key(k) && id[k].called && id[k].callers.s().contains(c),
        _ => true,
    }
}
/// the statement s of function c may have an edge a -> b
pub open spec fn src<'a>(E: Env<'a>, im: Im, c: NodeIndex, s: Stmt<'a>, a: int, b: int) -> bool {
    a == c.i() && match s {
        Stmt::BitcastCall(f) => f is Some && is_fn(im, *f->0, b),
        Stmt::DirectCall(f) => {
            &&& !emits_nothing(*f)
            &&& E.thumb ==> !llvm(*f)
            &&& if family(*f) < 3 { exists|n: VxStr| #[trigger] im.contains_key(n) && routine(family(*f), n) && im[n].i() == b } else { is_fn(im, *f, b) }
        }
        _ => false,
    }
}
pub open spec fn who<'a>(c: NodeIndex, s: Stmt<'a>) -> bool { true }
pub open spec fn covers<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>) -> bool
{ forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) ==> ok(E, e, im, id, c, s) }
pub open spec fn explained<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, im: Im, a: int, b: int) -> bool
{ exists|c: NodeIndex, s: Stmt<'a>| #[trigger] who(c, s) && P.contains((c, s)) && src(E, im, c, s, a, b) }
pub open spec fn sound<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, im: Im) -> bool
{ forall|a: int, b: int| #[trigger] ec(e, a, b) > 0 ==> explained(E, P, im, a, b) }
/// at most one edge per pair of nodes
pub open spec fn simple(e: E2) -> bool { forall|a: int, b: int| #[trigger] ec(e, a, b) <= 1 }
/// the sets on record are the edges of the graph
pub open spec fn seen_ok(em: IMap<NodeIndex, VxSet<NodeIndex>>, e: E2) -> bool {
    &&& forall|a: NodeIndex, x: NodeIndex| em.contains_key(a) ==> (#[trigger] em[a].s().contains(x) <==> ec(e, a.i(), x.i()) > 0)
    &&& forall|a: NodeIndex, x: NodeIndex| !em.contains_key(a) ==> #[trigger] ec(e, a.i(), x.i()) == 0
}
pub open spec fn seen_but(em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2) -> bool {
    &&& forall|a: NodeIndex, x: NodeIndex| a != c && em.contains_key(a) ==> (#[trigger] em[a].s().contains(x) <==> ec(e, a.i(), x.i()) > 0)
    &&& forall|a: NodeIndex, x: NodeIndex| a != c && !em.contains_key(a) ==> #[trigger] ec(e, a.i(), x.i()) == 0
    &&& forall|x: NodeIndex| #[trigger] seen.contains(x) <==> ec(e, c.i(), x.i()) > 0
}
/// nodes are only added for names the linker did not define, one per name
pub open spec fn fresh_ok(n0: Seq<Node>, im0: Im, n: Seq<Node>, im: Im) -> bool {
    &&& n0.len() <= n.len()
    &&& forall|i: int| 0 <= i < n0.len() ==> #[trigger] n[i] == n0[i]
    &&& forall|i: int| n0.len() <= i < n.len() ==> fresh((#[trigger] n[i])) && !im0.contains_key(n[i].name) && is_fn(im, n[i].name, i)
    &&& forall|k: VxStr| #[trigger] im0.contains_key(k) ==> im.contains_key(k) && im[k] == im0[k]
    &&& forall|k: VxStr| #[trigger] im.contains_key(k) && !im0.contains_key(k) ==> n0.len() <= im[k].i() < n.len() && n[im[k].i()].name == k
}
/// nothing is known about the function
pub open spec fn fresh(n: Node) -> bool { n.local is Unknown && n.max is None && !n.dashed }
pub open spec fn ind_ok<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, id: IMap<FnSig<'a>, Indirect>) -> bool {
    &&& forall|k: FnSig<'a>| #[trigger] E.id0.contains_key(k) ==> id.contains_key(k) && id[k].callees.s() == E.id0[k].callees.s()
    &&& forall|k: FnSig<'a>| #[trigger] id.contains_key(k) && !E.id0.contains_key(k) ==> id[k].callees.s() == ISet::<NodeIndex>::empty()
    &&& forall|k: FnSig<'a>, c: NodeIndex| id.contains_key(k) && #[trigger] id[k].callers.s().contains(c) ==> id[k].called && exists|sig: FnSig<'a>| #[trigger] wants(E, k, sig) && P.contains((c, Stmt::IndirectCall(sig)))
    &&& forall|k: FnSig<'a>| #[trigger] id.contains_key(k) && id[k].called ==> exists|c: NodeIndex| id[k].callers.s().contains(c)
}
/// s is a statement of the live function c
pub open spec fn body<'a>(al: IMap<VxStr, &'a VxStr>, im0: Im, dm: IMap<VxStr, Define<'a>>, c: NodeIndex, s: Stmt<'a>) -> bool
{ exists|k: VxStr| #[trigger] dm.contains_key(k) && al.contains_key(*dm[k].name) && im0[*al[*dm[k].name]] == c && dm[k].stmts@.contains(s) }
pub open spec fn bodies<'a>(al: IMap<VxStr, &'a VxStr>, im0: Im, dm: IMap<VxStr, Define<'a>>) -> ISet<(NodeIndex, Stmt<'a>)> { ISet::new(|p: (NodeIndex, Stmt<'a>)| body(al, im0, dm, p.0, p.1)) }
pub open spec fn live_name<'a>(al: IMap<VxStr, &'a VxStr>, dm: IMap<VxStr, Define<'a>>, n: VxStr) -> bool
{ exists|k: VxStr| #[trigger] dm.contains_key(k) && al.contains_key(*dm[k].name) && *al[*dm[k].name] == n }
pub open spec fn asm_name<'a>(al: IMap<VxStr, &'a VxStr>, dm: IMap<VxStr, Define<'a>>, n: VxStr) -> bool
{ exists|k: VxStr| #[trigger] dm.contains_key(k) && al.contains_key(*dm[k].name) && *al[*dm[k].name] == n && has_asm(dm[k].stmts@) }
pub open spec fn has_asm<'a>(ss: Seq<Stmt<'a>>) -> bool { exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]) is Asm }
/// the callees on record are the edges of the graph, and no edge is there twice
pub open spec fn rec(em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2) -> bool { seen_but(em, c, seen, e) && simple(e) }
/// everything said before this statement still holds
pub open spec fn linked<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, P1: ISet<(NodeIndex, Stmt<'a>)>, em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>) -> bool
{ covers(E, P1, e, im, id) && sound(E, P, e, im) && rec(em, c, seen, e) }
// ------------------------------------------------------------------ the same, for the first functions / statements
pub open spec fn live1<'a>(al: IMap<VxStr, &'a VxStr>, d: Define<'a>, n: VxStr) -> bool { al.contains_key(*d.name) && *al[*d.name] == n }
pub open spec fn from1<'a>(E: Env<'a>, d: Define<'a>, c: NodeIndex, s: Stmt<'a>) -> bool { E.al.contains_key(*d.name) && E.im0[*E.al[*d.name]] == c && d.stmts@.contains(s) }
pub open spec fn from<'a>(E: Env<'a>, ds: Seq<&Define<'a>>, k: int, c: NodeIndex, s: Stmt<'a>) -> bool { exists|i: int| 0 <= i < k && from1(E, *(#[trigger] ds[i]), c, s) }
pub open spec fn live_in<'a>(al: IMap<VxStr, &'a VxStr>, ds: Seq<&Define<'a>>, k: int, n: VxStr) -> bool { exists|i: int| 0 <= i < k && live1(al, *(#[trigger] ds[i]), n) }
pub open spec fn asm_in<'a>(al: IMap<VxStr, &'a VxStr>, ds: Seq<&Define<'a>>, k: int, n: VxStr) -> bool { exists|i: int| 0 <= i < k && live1(al, *(#[trigger] ds[i]), n) && has_asm(ds[i].stmts@) }
pub open spec fn among<'a>(ss: Seq<&Stmt<'a>>, q: int, s: Stmt<'a>) -> bool { exists|i: int| 0 <= i < q && *(#[trigger] ss[i]) == s }
pub open spec fn asm_among<'a>(ss: Seq<&Stmt<'a>>, q: int) -> bool { exists|i: int| 0 <= i < q && *(#[trigger] ss[i]) is Asm }
pub open spec fn distinct<'a>(ks: Seq<FnSig<'a>>) -> bool { forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && #[trigger] ks[i] == #[trigger] ks[j] ==> i == j }
/// functions with this signature exist and a call through sig may reach them
pub open spec fn fits<'a>(i: Indirect, k: FnSig<'a>, sig: FnSig<'a>) -> bool { (exists|x: NodeIndex| i.callees.s().contains(x)) && loose(k, sig) }
pub open spec fn called_from<'a>(i: Indirect, j: Indirect, k: FnSig<'a>, sig: FnSig<'a>, c: NodeIndex) -> bool
{ if fits(i, k, sig) { j.callees == i.callees && j.called && j.callers.s() == i.callers.s().insert(c) } else { j == i } }
proof fn all_called<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, a: IMap<FnSig<'a>, Indirect>, b: IMap<FnSig<'a>, Indirect>, ks: Seq<FnSig<'a>>, sig: FnSig<'a>, c: NodeIndex, e: E2, im: Im)
    requires
        ind_ok(E, P, a), covers(E, P, e, im, a),
        forall|k: FnSig<'a>| #[trigger] a.contains_key(k) <==> b.contains_key(k),
        forall|k: FnSig<'a>| #[trigger] a.contains_key(k) ==> ks.contains(k), forall|i: int| 0 <= i < ks.len() ==> a.contains_key(#[trigger] ks[i]),
        forall|i: int| 0 <= i < ks.len() ==> called_from(a[#[trigger] ks[i]], b[ks[i]], ks[i], sig, c),
    ensures
        ind_ok(E, P.insert((c, Stmt::IndirectCall(sig))), b),
        ({ let any = exists|i: int| 0 <= i < ks.len() && fits(a[ks[i]], #[trigger] ks[i], sig);
           &&& any || !E.untyped ==> covers(E, P.insert((c, Stmt::IndirectCall(sig))), e, im, b)
           &&& !any && E.untyped ==> forall|x: Indirect| x.called && x.callers.s() == (if b.contains_key(sig) { b[sig].callers.s() } else { ISet::empty() }).insert(c) && x.callees.s() == (if b.contains_key(sig) { b[sig].callees.s() } else { ISet::empty() })
                 ==> ind_ok(E, P.insert((c, Stmt::IndirectCall(sig))), #[trigger] b.insert(sig, x)) && covers(E, P.insert((c, Stmt::IndirectCall(sig))), e, im, b.insert(sig, x)) }),
{
    let any = exists|i: int| 0 <= i < ks.len() && fits(a[ks[i]], #[trigger] ks[i], sig);
    let Q = P.insert((c, Stmt::IndirectCall(sig)));
    assert forall|k: FnSig<'a>| a.contains_key(k) implies called_from(a[k], #[trigger] b[k], k, sig, c) by {
        assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(called_from(a[ks[i]], b[ks[i]], ks[i], sig, c));
    }
    assert forall|k: FnSig<'a>| #[trigger] hits(E, k, sig) <==> a.contains_key(k) && fits(a[k], k, sig) by {
        if a.contains_key(k) && fits(a[k], k, sig) { if !E.id0.contains_key(k) { assert(false); } }
    }
    if any {
        let i = choose|i: int| 0 <= i < ks.len() && fits(a[ks[i]], #[trigger] ks[i], sig); assert(hits(E, ks[i], sig));
    }
    if exists|k: FnSig<'a>| #[trigger] hits(E, k, sig) {
        let k = choose|k: FnSig<'a>| #[trigger] hits(E, k, sig); assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(fits(a[ks[i]], ks[i], sig));
    }
    ind_called(E, P, a, b, sig, c);
    ok_called(E, P, a, b, sig, c, e, im);
    if any || !E.untyped {
        assert(ok(E, e, im, b, c, Stmt::IndirectCall(sig)));
    } else {
        assert(wants(E, sig, sig));
        assert forall|x: Indirect| x.called && x.callers.s() == (if b.contains_key(sig) { b[sig].callers.s() } else { ISet::empty() }).insert(c) && x.callees.s() == (if b.contains_key(sig) { b[sig].callees.s() } else { ISet::empty() })
            implies ind_ok(E, Q, #[trigger] b.insert(sig, x)) && covers(E, Q, e, im, b.insert(sig, x)) by {
            let d = b.insert(sig, x);
            assert(ok(E, e, im, d, c, Stmt::IndirectCall(sig)));
            ok_grow(E, P, e, im, b, d);
            assert forall|k: FnSig<'a>, c2: NodeIndex| d.contains_key(k) && #[trigger] d[k].callers.s().contains(c2) implies d[k].called && exists|g: FnSig<'a>| #[trigger] wants(E, k, g) && Q.contains((c2, Stmt::IndirectCall(g))) by {
                if k != sig { assert(b[k].callers.s().contains(c2)); }
                else if c2 == c { assert(wants(E, k, sig) && Q.contains((c2, Stmt::IndirectCall(sig)))); }
                else { assert(b[k].callers.s().contains(c2)); }
            }
            assert forall|k: FnSig<'a>| #[trigger] d.contains_key(k) && d[k].called implies exists|c2: NodeIndex| d[k].callers.s().contains(c2) by {
                if k == sig { assert(d[k].callers.s().contains(c)); }
            }
            assert(ind_ok(E, Q, d));
        }
    }
}
proof fn ind_called<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, a: IMap<FnSig<'a>, Indirect>, b: IMap<FnSig<'a>, Indirect>, sig: FnSig<'a>, c: NodeIndex)
    requires
        ind_ok(E, P, a), forall|k: FnSig<'a>| #[trigger] a.contains_key(k) <==> b.contains_key(k),
        forall|k: FnSig<'a>| a.contains_key(k) ==> called_from(a[k], #[trigger] b[k], k, sig, c),
        forall|k: FnSig<'a>| #[trigger] hits(E, k, sig) <==> a.contains_key(k) && fits(a[k], k, sig),
    ensures ind_ok(E, P.insert((c, Stmt::IndirectCall(sig))), b)
{
    let Q = P.insert((c, Stmt::IndirectCall(sig)));
    assert forall|k: FnSig<'a>, c2: NodeIndex| b.contains_key(k) && #[trigger] b[k].callers.s().contains(c2) implies b[k].called && exists|g: FnSig<'a>| #[trigger] wants(E, k, g) && Q.contains((c2, Stmt::IndirectCall(g))) by {
        assert(called_from(a[k], b[k], k, sig, c));
        if a[k].callers.s().contains(c2) {
            let g = choose|g: FnSig<'a>| #[trigger] wants(E, k, g) && P.contains((c2, Stmt::IndirectCall(g))); assert(wants(E, k, g) && Q.contains((c2, Stmt::IndirectCall(g))));
        } else {
            assert(hits(E, k, sig)); assert(wants(E, k, sig) && Q.contains((c2, Stmt::IndirectCall(sig))));
        }
    }
    assert forall|k: FnSig<'a>| #[trigger] b.contains_key(k) && b[k].called implies exists|c2: NodeIndex| b[k].callers.s().contains(c2) by {
        assert(called_from(a[k], b[k], k, sig, c));
        if fits(a[k], k, sig) { assert(b[k].callers.s().contains(c)); }
    }
    assert forall|k: FnSig<'a>| #[trigger] E.id0.contains_key(k) implies b.contains_key(k) && b[k].callees.s() == E.id0[k].callees.s() by { assert(called_from(a[k], b[k], k, sig, c)); }
    assert forall|k: FnSig<'a>| #[trigger] b.contains_key(k) && !E.id0.contains_key(k) implies b[k].callees.s() == ISet::<NodeIndex>::empty() by { assert(called_from(a[k], b[k], k, sig, c)); }
}
proof fn ok_called<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, a: IMap<FnSig<'a>, Indirect>, b: IMap<FnSig<'a>, Indirect>, sig: FnSig<'a>, c: NodeIndex, e: E2, im: Im)
    requires
        covers(E, P, e, im, a), forall|k: FnSig<'a>| #[trigger] a.contains_key(k) <==> b.contains_key(k),
        forall|k: FnSig<'a>| a.contains_key(k) ==> called_from(a[k], #[trigger] b[k], k, sig, c),
    ensures covers(E, P, e, im, b)
{
    assert forall|k: FnSig<'a>, x: NodeIndex| a.contains_key(k) && #[trigger] a[k].callers.s().contains(x) implies b[k].callers.s().contains(x) by { assert(called_from(a[k], b[k], k, sig, c)); }
    assert forall|k: FnSig<'a>| #[trigger] a.contains_key(k) && a[k].called implies b[k].called by { assert(called_from(a[k], b[k], k, sig, c)); }
    ok_grow(E, P, e, im, a, b);
}
proof fn ok_grow<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, im: Im, a: IMap<FnSig<'a>, Indirect>, b: IMap<FnSig<'a>, Indirect>)
    requires
        covers(E, P, e, im, a),
        forall|k: FnSig<'a>| #[trigger] a.contains_key(k) ==> b.contains_key(k) && (a[k].called ==> b[k].called),
        forall|k: FnSig<'a>, x: NodeIndex| a.contains_key(k) && #[trigger] a[k].callers.s().contains(x) ==> b[k].callers.s().contains(x),
    ensures covers(E, P, e, im, b)
{
    assert forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) implies ok(E, e, im, b, c, s) by {
        assert(ok(E, e, im, a, c, s));
        if s is IndirectCall { assert forall|k: FnSig<'a>| #[trigger] wants(E, k, s->IndirectCall_0) implies b.contains_key(k) && b[k].called && b[k].callers.s().contains(c) by { assert(a.contains_key(k)); assert(a[k].callers.s().contains(c)); } }
    }
}
proof fn ind_more<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, x: (NodeIndex, Stmt<'a>), a: IMap<FnSig<'a>, Indirect>)
    requires ind_ok(E, P, a)
    ensures ind_ok(E, P.insert(x), a)
{
    assert forall|k: FnSig<'a>, c2: NodeIndex| a.contains_key(k) && #[trigger] a[k].callers.s().contains(c2) implies a[k].called && exists|g: FnSig<'a>| #[trigger] wants(E, k, g) && P.insert(x).contains((c2, Stmt::IndirectCall(g))) by {
        let g = choose|g: FnSig<'a>| #[trigger] wants(E, k, g) && P.contains((c2, Stmt::IndirectCall(g))); assert(wants(E, k, g) && P.insert(x).contains((c2, Stmt::IndirectCall(g))));
    }
}
/// the memory intrinsics are none of the no-ops
proof fn no_mem(f: VxStr)
    ensures family(f) < 3 ==> !emits_nothing(f)
{
    at5(f@, "llvm.memcpy."@); at5(f@, "llvm.memmove."@); at5(f@, "llvm.memset."@);
    at5(f@, "llvm.dbg.value"@); at5(f@, "llvm.dbg.declare"@); at5(f@, "llvm.assume"@); at5(f@, "llvm.trap"@); at5(f@, "llvm.lifetime.start"@); at5(f@, "llvm.lifetime.end"@);
    at5(f@, "llvm.experimental.noalias.scope.decl"@); at5(f@, "llvm.abs."@); at5(f@, "llvm.bswap."@); at5(f@, "llvm.ctlz."@); at5(f@, "llvm.cttz."@);
    at5(f@, "llvm.sadd.with.overflow."@); at5(f@, "llvm.smul.with.overflow."@); at5(f@, "llvm.ssub.with.overflow."@); at5(f@, "llvm.uadd.sat."@); at5(f@, "llvm.uadd.with.overflow."@);
    at5(f@, "llvm.umax."@); at5(f@, "llvm.umin."@); at5(f@, "llvm.umul.with.overflow."@); at5(f@, "llvm.usub.sat."@); at5(f@, "llvm.usub.with.overflow."@); at5(f@, "llvm.vector.reduce."@);
    at5(f@, "llvm.x86.sse2.pmovmskb."@); at5(f@, "llvm.x86.sse2.pause"@);
    reveal_strlit("llvm.memcpy."); reveal_strlit("llvm.memmove."); reveal_strlit("llvm.memset.");
    reveal_strlit("llvm.dbg.value"); reveal_strlit("llvm.dbg.declare"); reveal_strlit("llvm.assume"); reveal_strlit("llvm.trap"); reveal_strlit("llvm.lifetime.start"); reveal_strlit("llvm.lifetime.end");
    reveal_strlit("llvm.experimental.noalias.scope.decl"); reveal_strlit("llvm.abs."); reveal_strlit("llvm.bswap."); reveal_strlit("llvm.ctlz."); reveal_strlit("llvm.cttz.");
    reveal_strlit("llvm.sadd.with.overflow."); reveal_strlit("llvm.smul.with.overflow."); reveal_strlit("llvm.ssub.with.overflow."); reveal_strlit("llvm.uadd.sat."); reveal_strlit("llvm.uadd.with.overflow.");
    reveal_strlit("llvm.umax."); reveal_strlit("llvm.umin."); reveal_strlit("llvm.umul.with.overflow."); reveal_strlit("llvm.usub.sat."); reveal_strlit("llvm.usub.with.overflow."); reveal_strlit("llvm.vector.reduce.");
    reveal_strlit("llvm.x86.sse2.pmovmskb."); reveal_strlit("llvm.x86.sse2.pause");
}
proof fn at5(f: Seq<char>, p: Seq<char>)
    ensures p.len() > 5 && (starts(f, p) || f == p) ==> f.len() > 5 && f[5] == p[5]
{ if p.len() > 5 && starts(f, p) { assert(f.take(p.len() as int)[5] == f[5]); } }
proof fn from_step<'a>(E: Env<'a>, ds: Seq<&Define<'a>>, k: int)
    requires 0 <= k < ds.len()
    ensures
        forall|c: NodeIndex, s: Stmt<'a>| #[trigger] from(E, ds, k + 1, c, s) <==> from(E, ds, k, c, s) || from1(E, *ds[k], c, s),
        forall|n: VxStr| #[trigger] live_in(E.al, ds, k + 1, n) <==> live_in(E.al, ds, k, n) || live1(E.al, *ds[k], n),
        forall|n: VxStr| #[trigger] asm_in(E.al, ds, k + 1, n) <==> asm_in(E.al, ds, k, n) || (live1(E.al, *ds[k], n) && has_asm(ds[k].stmts@)),
{
    assert forall|c: NodeIndex, s: Stmt<'a>| #[trigger] from(E, ds, k + 1, c, s) <==> from(E, ds, k, c, s) || from1(E, *ds[k], c, s) by {
        if from(E, ds, k, c, s) { let i = choose|i: int| 0 <= i < k && from1(E, *(#[trigger] ds[i]), c, s); assert(from1(E, *ds[i], c, s)); }
        if from1(E, *ds[k], c, s) { assert(from1(E, *ds[k], c, s)); }
    }
    assert forall|n: VxStr| #[trigger] live_in(E.al, ds, k + 1, n) <==> live_in(E.al, ds, k, n) || live1(E.al, *ds[k], n) by {
        if live_in(E.al, ds, k, n) { let i = choose|i: int| 0 <= i < k && live1(E.al, *(#[trigger] ds[i]), n); assert(live1(E.al, *ds[i], n)); }
        if live1(E.al, *ds[k], n) { assert(live1(E.al, *ds[k], n)); }
    }
    assert forall|n: VxStr| #[trigger] asm_in(E.al, ds, k + 1, n) <==> asm_in(E.al, ds, k, n) || (live1(E.al, *ds[k], n) && has_asm(ds[k].stmts@)) by {
        if asm_in(E.al, ds, k, n) { let i = choose|i: int| 0 <= i < k && live1(E.al, *(#[trigger] ds[i]), n) && has_asm(ds[i].stmts@); assert(live1(E.al, *ds[i], n)); }
        if live1(E.al, *ds[k], n) && has_asm(ds[k].stmts@) { assert(live1(E.al, *ds[k], n)); }
    }
}
proof fn among_step<'a>(ss: Seq<&Stmt<'a>>, q: int)
    requires 0 <= q < ss.len()
    ensures
        forall|s: Stmt<'a>| #[trigger] among(ss, q + 1, s) <==> among(ss, q, s) || *ss[q] == s,
        asm_among(ss, q + 1) <==> asm_among(ss, q) || *ss[q] is Asm,
{
    assert forall|s: Stmt<'a>| #[trigger] among(ss, q + 1, s) <==> among(ss, q, s) || *ss[q] == s by {
        if among(ss, q, s) { let i = choose|i: int| 0 <= i < q && *(#[trigger] ss[i]) == s; assert(*ss[i] == s); }
        if *ss[q] == s { assert(*ss[q] == s); }
    }
    if asm_among(ss, q) { let i = choose|i: int| 0 <= i < q && *(#[trigger] ss[i]) is Asm; assert(*ss[i] is Asm); }
    if *ss[q] is Asm { assert(*ss[q] is Asm); }
}
proof fn has_among<'a>(v: Seq<Stmt<'a>>, ss: Seq<&Stmt<'a>>)
    requires v.len() == ss.len(), forall|i: int| 0 <= i < ss.len() ==> *(#[trigger] ss[i]) == v[i]
    ensures
        forall|s: Stmt<'a>| #[trigger] among(ss, ss.len() as int, s) <==> v.contains(s),
        asm_among(ss, ss.len() as int) <==> has_asm(v),
{
    assert forall|s: Stmt<'a>| #[trigger] among(ss, ss.len() as int, s) <==> v.contains(s) by {
        if v.contains(s) { let i = choose|i: int| 0 <= i < v.len() && v[i] == s; assert(*ss[i] == s); }
    }
    if has_asm(v) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Asm; assert(*ss[i] is Asm); }
}
proof fn in_defines<'a>(E: Env<'a>, dm: IMap<VxStr, Define<'a>>, ds: Seq<&Define<'a>>)
    requires
        forall|i: int| 0 <= i < ds.len() ==> is_value(dm, *(#[trigger] ds[i])),
        forall|k: VxStr| #[trigger] dm.contains_key(k) ==> exists|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]) == dm[k],
    ensures
        forall|c: NodeIndex, s: Stmt<'a>| #[trigger] from(E, ds, ds.len() as int, c, s) <==> body(E.al, E.im0, dm, c, s),
        forall|n: VxStr| #[trigger] live_in(E.al, ds, ds.len() as int, n) <==> live_name(E.al, dm, n),
        forall|n: VxStr| #[trigger] asm_in(E.al, ds, ds.len() as int, n) <==> asm_name(E.al, dm, n),
{
    let l = ds.len() as int;
    assert forall|c: NodeIndex, s: Stmt<'a>| #[trigger] from(E, ds, l, c, s) <==> body(E.al, E.im0, dm, c, s) by {
        if from(E, ds, l, c, s) { let i = choose|i: int| 0 <= i < l && from1(E, *(#[trigger] ds[i]), c, s); let k = choose|k: VxStr| #[trigger] dm.contains_key(k) && dm[k] == *ds[i]; assert(dm.contains_key(k)); }
        if body(E.al, E.im0, dm, c, s) {
            let k = choose|k: VxStr| #[trigger] dm.contains_key(k) && E.al.contains_key(*dm[k].name) && E.im0[*E.al[*dm[k].name]] == c && dm[k].stmts@.contains(s);
            let i = choose|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]) == dm[k]; assert(from1(E, *ds[i], c, s));
        }
    }
    assert forall|n: VxStr| #[trigger] live_in(E.al, ds, l, n) <==> live_name(E.al, dm, n) by {
        if live_in(E.al, ds, l, n) { let i = choose|i: int| 0 <= i < l && live1(E.al, *(#[trigger] ds[i]), n); let k = choose|k: VxStr| #[trigger] dm.contains_key(k) && dm[k] == *ds[i]; assert(dm.contains_key(k)); }
        if live_name(E.al, dm, n) {
            let k = choose|k: VxStr| #[trigger] dm.contains_key(k) && E.al.contains_key(*dm[k].name) && *E.al[*dm[k].name] == n;
            let i = choose|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]) == dm[k]; assert(live1(E.al, *ds[i], n));
        }
    }
    assert forall|n: VxStr| #[trigger] asm_in(E.al, ds, l, n) <==> asm_name(E.al, dm, n) by {
        if asm_in(E.al, ds, l, n) { let i = choose|i: int| 0 <= i < l && live1(E.al, *(#[trigger] ds[i]), n) && has_asm(ds[i].stmts@); let k = choose|k: VxStr| #[trigger] dm.contains_key(k) && dm[k] == *ds[i]; assert(dm.contains_key(k)); }
        if asm_name(E.al, dm, n) {
            let k = choose|k: VxStr| #[trigger] dm.contains_key(k) && E.al.contains_key(*dm[k].name) && *E.al[*dm[k].name] == n && has_asm(dm[k].stmts@);
            let i = choose|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]) == dm[k]; assert(live1(E.al, *ds[i], n) && has_asm(ds[i].stmts@));
        }
    }
}
proof fn all_bodies<'a>(P: ISet<(NodeIndex, Stmt<'a>)>, al: IMap<VxStr, &'a VxStr>, im0: Im, dm: IMap<VxStr, Define<'a>>, E: Env<'a>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) <==> body(al, im0, dm, c, s), covers(E, P, e, im, id)
    ensures P == bodies(al, im0, dm), forall|c: NodeIndex, s: Stmt<'a>| body(al, im0, dm, c, s) ==> #[trigger] ok(E, e, im, id, c, s)
{
    assert(P =~= bodies(al, im0, dm));
    assert forall|c: NodeIndex, s: Stmt<'a>| body(al, im0, dm, c, s) implies #[trigger] ok(E, e, im, id, c, s) by { assert(P.contains((c, s))); }
}
pub proof fn covers_push<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, x: (int, int), im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires covers(E, P, e, im, id)
    ensures covers(E, P, e.push(x), im, id)
{
    ec_push(e, x);
    assert forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) implies ok(E, e.push(x), im, id, c, s) by { assert(ok(E, e, im, id, c, s)); ok_push(E, e, x, im, id, c, s); }
}
proof fn ok_push<'a>(E: Env<'a>, e: E2, x: (int, int), im: Im, id: IMap<FnSig<'a>, Indirect>, c: NodeIndex, s: Stmt<'a>)
    requires ok(E, e, im, id, c, s)
    ensures ok(E, e.push(x), im, id, c, s)
{
    ec_push(e, x);
    assert forall|f: VxStr| hit(e, im, c, f) implies #[trigger] hit(e.push(x), im, c, f) by {}
    if s is DirectCall { let f = s->DirectCall_0; if forall|n: VxStr| routine(family(*f), n) && #[trigger] E.im0.contains_key(n) ==> hit(e, im, c, n) {
        assert forall|n: VxStr| routine(family(*f), n) && #[trigger] E.im0.contains_key(n) implies hit(e.push(x), im, c, n) by { assert(hit(e, im, c, n)); } } }
}
pub proof fn covers_im<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, k: VxStr, v: NodeIndex, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires covers(E, P, e, im, id), !im.contains_key(k)
    ensures covers(E, P, e, im.insert(k, v), id)
{
    assert forall|c: NodeIndex, s: Stmt<'a>| #[trigger] P.contains((c, s)) implies ok(E, e, im.insert(k, v), id, c, s) by {
        assert(ok(E, e, im, id, c, s));
        if s is DirectCall { let f = s->DirectCall_0; if forall|n: VxStr| routine(family(*f), n) && #[trigger] E.im0.contains_key(n) ==> hit(e, im, c, n) {
            assert forall|n: VxStr| routine(family(*f), n) && #[trigger] E.im0.contains_key(n) implies hit(e, im.insert(k, v), c, n) by { assert(hit(e, im, c, n)); } } }
    }
}
pub broadcast proof fn covers_insert<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>, c: NodeIndex, s: Stmt<'a>)
    requires covers(E, P, e, im, id), ok(E, e, im, id, c, s)
    ensures #[trigger] covers(E, P.insert((c, s)), e, im, id)
{}
pub proof fn sound_im<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, e: E2, k: VxStr, v: NodeIndex, im: Im)
    requires sound(E, P, e, im), !im.contains_key(k)
    ensures sound(E, P, e, im.insert(k, v))
{
    assert forall|a: int, b: int| #[trigger] ec(e, a, b) > 0 implies explained(E, P, im.insert(k, v), a, b) by {
        let (c, s) = choose|c: NodeIndex, s: Stmt<'a>| #[trigger] who(c, s) && P.contains((c, s)) && src(E, im, c, s, a, b);
        assert(src(E, im.insert(k, v), c, s, a, b)) by {
            if s is DirectCall { let f = s->DirectCall_0; if family(*f) < 3 { let n = choose|n: VxStr| #[trigger] im.contains_key(n) && routine(family(*f), n) && im[n].i() == b; assert(im.insert(k, v).contains_key(n)); } }
        }
        assert(who(c, s));
    }
}
pub proof fn sound_more<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, x: (NodeIndex, Stmt<'a>), e: E2, im: Im)
    requires sound(E, P, e, im)
    ensures sound(E, P.insert(x), e, im)
{
    assert forall|a: int, b: int| #[trigger] ec(e, a, b) > 0 implies explained(E, P.insert(x), im, a, b) by {
        let (c, s) = choose|c: NodeIndex, s: Stmt<'a>| #[trigger] who(c, s) && P.contains((c, s)) && src(E, im, c, s, a, b); assert(who(c, s));
    }
}
pub broadcast proof fn fresh_push(n0: Seq<Node>, im0: Im, n: Seq<Node>, im: Im, x: Node, k: VxStr, v: NodeIndex)
    requires fresh_ok(n0, im0, n, im), !im.contains_key(k), v.i() == n.len(), fresh(x), x.name == k
    ensures #[trigger] fresh_ok(n0, im0, n.push(x), im.insert(k, v))
{}
pub broadcast proof fn fresh_known(n0: Seq<Node>, im0: Im, n: Seq<Node>, im: Im, k: VxStr)
    requires #[trigger] fresh_ok(n0, im0, n, im), im0.contains_key(k)
    ensures #[trigger] im.contains_key(k), im[k] == im0[k]
{}
pub broadcast proof fn fresh_known0(n0: Seq<Node>, im0: Im, n: Seq<Node>, im: Im, k: VxStr)
    requires #[trigger] fresh_ok(n0, im0, n, im), #[trigger] im0.contains_key(k)
    ensures im.contains_key(k), im[k] == im0[k]
{}
pub broadcast proof fn rec_start(em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2)
    requires seen_ok(em, e), simple(e), em.contains_key(c) ==> seen == em[c].s(), !em.contains_key(c) ==> seen == ISet::<NodeIndex>::empty()
    ensures #[trigger] rec(em, c, seen, e)
{}
pub broadcast proof fn rec_end(em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: VxSet<NodeIndex>, e: E2)
    requires rec(em, c, seen.s(), e)
    ensures #[trigger] seen_ok(em.insert(c, seen), e)
{}
pub broadcast proof fn rec_simple(em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2)
    requires #[trigger] rec(em, c, seen, e)
    ensures simple(e)
{}
pub broadcast proof fn link_push<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, P1: ISet<(NodeIndex, Stmt<'a>)>, em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, b: NodeIndex, seen: ISet<NodeIndex>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires linked(E, P, P1, em, c, seen, e, im, id), !seen.contains(b), explained(E, P, im, c.i(), b.i())
    ensures #[trigger] linked(E, P, P1, em, c, seen.insert(b), e.push((c.i(), b.i())), im, id)
{ ec_push(e, (c.i(), b.i())); covers_push(E, P1, e, (c.i(), b.i()), im, id); assert(ec(e, c.i(), b.i()) == 0); }
pub broadcast proof fn link_same<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, P1: ISet<(NodeIndex, Stmt<'a>)>, em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, b: NodeIndex, seen: ISet<NodeIndex>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires linked(E, P, P1, em, c, seen, e, im, id), seen.contains(b)
    ensures #[trigger] linked(E, P, P1, em, c, seen.insert(b), e, im, id)
{ assert(seen.insert(b) =~= seen); }
pub broadcast proof fn link_im<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, P1: ISet<(NodeIndex, Stmt<'a>)>, em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2, k: VxStr, v: NodeIndex, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires linked(E, P, P1, em, c, seen, e, im, id), !im.contains_key(k)
    ensures #[trigger] linked(E, P, P1, em, c, seen, e, im.insert(k, v), id)
{ covers_im(E, P1, e, k, v, im, id); sound_im(E, P, e, k, v, im); }
pub broadcast proof fn link_elim<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, P1: ISet<(NodeIndex, Stmt<'a>)>, em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, seen: ISet<NodeIndex>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires #[trigger] linked(E, P, P1, em, c, seen, e, im, id)
    ensures covers(E, P1, e, im, id), sound(E, P, e, im), rec(em, c, seen, e)
{}
/// a statement is looked at
pub proof fn link_start<'a>(E: Env<'a>, P: ISet<(NodeIndex, Stmt<'a>)>, em: IMap<NodeIndex, VxSet<NodeIndex>>, c: NodeIndex, s: Stmt<'a>, seen: ISet<NodeIndex>, e: E2, im: Im, id: IMap<FnSig<'a>, Indirect>)
    requires covers(E, P, e, im, id), sound(E, P, e, im), rec(em, c, seen, e), ind_ok(E, P, id)
    ensures linked(E, P.insert((c, s)), P, em, c, seen, e, im, id), ind_ok(E, P.insert((c, s)), id), who(c, s)
{ sound_more(E, P, (c, s), e, im); ind_more(E, P, (c, s), id); }
proof fn begin<'a>(E: Env<'a>, g: DiGraph<Node, ()>)
    requires pre(g, E.im0, E.al, E.id0)
    ensures
        covers(E, ISet::empty(), g.edges(), E.im0, E.id0), sound(E, ISet::empty(), g.edges(), E.im0), simple(g.edges()),
        seen_ok(IMap::empty(), g.edges()), fresh_ok(g.nodes(), E.im0, g.nodes(), E.im0), ind_ok(E, ISet::empty(), E.id0),
{ ec_empty(g.edges()); }
pub broadcast proof fn join_push(e: E2, x: (int, int), c: NodeIndex, b: NodeIndex)
    requires joined(e, c, b)
    ensures #[trigger] joined(e.push(x), c, b)
{ ec_push(e, x); }
pub broadcast proof fn join_new(e: E2, c: NodeIndex, b: NodeIndex)
    ensures joined(#[trigger] e.push((c.i(), b.i())), c, b)
{ ec_push(e, (c.i(), b.i())); }
pub broadcast proof fn join_seen(em: IMap<NodeIndex, VxSet<NodeIndex>>, seen: ISet<NodeIndex>, e: E2, c: NodeIndex, b: NodeIndex)
    requires #[trigger] rec(em, c, seen, e), #[trigger] seen.contains(b)
    ensures joined(e, c, b)
{}
broadcast group steps { join_push, join_new, join_seen, fresh_known, fresh_known0, rec_start, rec_end, rec_simple, link_push, link_same, link_im, link_elim, covers_insert, fresh_push }
pub proof fn ec_grow(e: E2, x: (int, int), a: int, b: int)
    ensures ec(e.push(x), a, b) == ec(e, a, b) + (if x == (a, b) { 1nat } else { 0nat })
{ ec_push(e, x); }
proof fn ec_empty(e: E2)
    requires e.len() == 0
    ensures forall|a: int, b: int| #[trigger] ec(e, a, b) == 0
{}
mod block {
use super::*;
broadcast use super::steps;
//@@slices block_edges 12
}
fn main() {}
}
