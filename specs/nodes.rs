// C19, C20 (and the callees' part of C10): one node per address
//@@spec Target_is_thumb
    ensures ret == (*self is Thumbv6m || *self is Thumbv7m),
//@@spec fn_Node
    ensures
        ret.name == name.vx_s(), ret.max is None, ret.dashed == dashed,
        stack is None ==> ret.local is Unknown, stack is Some ==> ret.local == Local::Exact(stack->0), //#C19 C20 a recorded frame is the frame of the node
//@@spec is_outlined_function
    ensures ret == outlined(*name), //#C19 what LLVM's outliner calls its functions
//@@proof is_outlined_function.entry
    proof { reveal_strlit("OUTLINED_FUNCTION_"); }
//@@spec block_nodes
    requires
        g.nodes().len() == 0, g.edges().len() == 0, indices.m() == IMap::<VxStr, NodeIndex>::empty(),
        sane(symbols.defined.m()),
    ensures
        done(env(symbols, stack_sizes, defines, declares), ret.0.nodes(), ret.1.m(), ret.4.m(), ret.5.m(), ret.2.m(), ret.3.s(), ret.6, ret.7), //#C01 C10 C19 C20 what `placed`, `named_ok`, `addr_ok`, `sigs_ok`, `fmts_ok` say holds of all functions
        ret.0.edges().len() == 0, ret.0.wf(),
//@@proof block_nodes.entry
    hide(placed); hide(named_ok); hide(addr_ok); hide(sigs_ok); hide(fmts_ok); hide(some_frame); hide(some_untyped); hide(sane); hide(canonical); hide(has_sig); hide(is_fmt); hide(outlined);
    let ghost E = env(symbols, stack_sizes, defines, declares);
    let ghost mut pos = IMap::<u64, int>::empty();
    let ghost mut cn = IMap::<u64, VxStr>::empty();
//@@proof block_nodes.0.before
    let ghost ds = vx_it_L0.rest();
    let ghost mut k = 0int;
    let ghost mut D = ISet::<u64>::empty();
    proof { begin(E, g.nodes(), indices.m(), aliases.m(), addr2name.m(), indirects.m(), fmts.s()); }
//@@inv block_nodes.0
    invariant
        E == env(symbols, stack_sizes, defines, declares), sane(E.fm), g.wf(), g.edges().len() == 0,
        0 <= k <= ds.len(), vx_it_L0.rest() =~= ds.skip(k), listed(E.fm, ds), forall|a: u64| #[trigger] D.contains(a) <==> among(ds, k, a),
        placed(E, D, pos, cn, g.nodes()), //#C20 C19 one node per address, named like the function, with its recorded frame
        named_ok(E, D, pos, cn, indices.m(), aliases.m()), //#C20 every name leads to the node of its address
        addr_ok(D, cn, addr2name.m()), //#C20 C01 every address leads to its function
        sigs_ok(E, D, pos, indirects.m()), //#C20 C10 every signature of every name leads to the node
        fmts_ok(E, D, pos, fmts.s()), //#C10 the formatters
        has_stack_usage_info <==> some_frame(E, D, cn), //#C19 some function has a recorded frame
        has_untyped_symbols <==> some_untyped(E, D, cn), //#C10 C20 some function has no type information under any of its names
    ensures
        k == ds.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_nodes.0.top
    let ghost (g0, im0, al0, an0, id0, fm0, info0, unt0) = (g.nodes(), indices.m(), aliases.m(), addr2name.m(), indirects.m(), fmts.s(), has_stack_usage_info, has_untyped_symbols);
    let ghost A = if k < ds.len() { *ds[k].0 } else { 0 };
    let ghost D0 = D;
    let ghost mut ns: Seq<&VxStr> = Seq::empty();
    proof { if k < ds.len() { assert(ds.skip(k)[0] == ds[k]); assert(ds.skip(k).drop_first() =~= ds.skip(k + 1)); at_step(E.fm, ds, k, D0); D = D.insert(A); k = k + 1; } }
//@@proof block_nodes.1.before
    let ghost raw = sym.ns();
    let ghost mut q = 0int;
//@@inv block_nodes.1
    invariant
        0 <= q <= raw.len(), vx_it_L1.rest().len() == raw.len() - q, forall|j: int| 0 <= j < raw.len() - q ==> *(#[trigger] vx_it_L1.rest()[j]) == raw[q + j],
        forall|n: VxStr| #[trigger] inn(vx_v_L1@, vx_v_L1@.len() as int, n) <==> inn(raw, q, n) && !is_tag(n), //#C20 mapping symbols are not names
    ensures
        q == raw.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_nodes.1.top
    let ghost v0 = vx_v_L1@;
    proof { if q < raw.len() { assert(*vx_it_L1.rest()[0] == raw[q]); inn_step(raw, q); q = q + 1; } }
//@@proof block_nodes.1.end
    proof { if vx_v_L1@ != v0 { inn_push(v0, raw[q - 1]); } }
//@@proof block_nodes.1.after
    proof { ns = vx_v_L1@; our_names(E, A, raw, ns); }
//@@proof block_nodes.2.before
    let ghost mut q = 0int;
//@@inv block_nodes.2
    invariant
        0 <= q <= ns.len(), ns == names@, vx_it_L2.rest().len() == ns.len() - q, forall|j: int| 0 <= j < ns.len() - q ==> *(#[trigger] vx_it_L2.rest()[j]) == ns[q + j], E.ss == stack_sizes.m(),
        frame_name(E, ns, vx_f_L2), //#C19 C20 the name the frame is recorded under
        vx_f_L2 is None ==> forall|j: int| 0 <= j < q ==> !E.ss.contains_key(*#[trigger] ns[j]), //#C19 C20 no frame is recorded under any of the names
    ensures
        q == ns.len(),
    decreases vx_it_L2.rest().len(),
//@@proof block_nodes.2.top
    proof { if q < ns.len() { assert(*vx_it_L2.rest()[0] == ns[q]); inn_at(ns, q); q = q + 1; } }
//@@proof block_nodes.3.before
    let ghost c = *canonical_name;
    let ghost mut q = 0int;
    proof { assert(ns.len() > 0); inn_at(ns, 0); is_canonical(E, A, ns, c); }
//@@inv block_nodes.3
    invariant
        0 <= q <= ns.len(), ns == names@, vx_it_L3.rest().len() == ns.len() - q, forall|j: int| 0 <= j < ns.len() - q ==> *(#[trigger] vx_it_L3.rest()[j]) == ns[q + j],
        forall|n: VxStr| #[trigger] aliases.m().contains_key(n) <==> al0.contains_key(n) || inn(ns, q, n), //#C20 every name so far is known
        forall|n: VxStr| #[trigger] aliases.m().contains_key(n) ==> aliases.m()[n] == (if inn(ns, q, n) { canonical_name } else { al0[n] }), //#C20 every name so far leads to the function
    ensures
        q == ns.len(),
    decreases vx_it_L3.rest().len(),
//@@proof block_nodes.3.top
    proof { if q < ns.len() { assert(*vx_it_L3.rest()[0] == ns[q]); inn_step(ns, q); q = q + 1; } }
//@@proof block_nodes.4.before
    let ghost p = idx.i();
    let ghost mut q = 0int;
//@@inv block_nodes.4
    invariant
        0 <= q <= ns.len(), ns == names@, vx_it_L4.rest().len() == ns.len() - q, forall|j: int| 0 <= j < ns.len() - q ==> *(#[trigger] vx_it_L4.rest()[j]) == ns[q + j],
        forall|n: VxStr| #[trigger] indices.m().contains_key(n) <==> im0.contains_key(n) || inn(ns, q, n), //#C20 every name so far is known
        forall|n: VxStr| #[trigger] indices.m().contains_key(n) ==> indices.m()[n] == (if inn(ns, q, n) { idx } else { im0[n] }), //#C20 every name so far leads to the node
    ensures
        q == ns.len(),
    decreases vx_it_L4.rest().len(),
//@@proof block_nodes.4.top
    proof { if q < ns.len() { assert(*vx_it_L4.rest()[0] == ns[q]); inn_step(ns, q); q = q + 1; } }
//@@proof block_nodes.5.before
    let ghost mut q = 0int;
    proof { unfold_sigs(E, D0, pos, id0); }
//@@inv block_nodes.5
    invariant
        0 <= q <= ns.len(), ns == names@, vx_it_L5.rest().len() == ns.len() - q, forall|j: int| 0 <= j < ns.len() - q ==> *(#[trigger] vx_it_L5.rest()[j]) == ns[q + j], E.df == defines.m(),
        sigs_so(E, ns, q, 0, idx, id0, indirects.m()), //#C20 C10 the signatures so far lead to the node
        fmts_so(E, ns, q, 0, idx, fm0, fmts.s()), //#C10 the formatters
        is_typed <==> any_sig(E, ns, q, 0), //#C10 there is type information
    ensures
        q == ns.len(),
    decreases vx_it_L5.rest().len(),
//@@proof block_nodes.5.top
    let ghost (id5, fm5) = (indirects.m(), fmts.s());
    proof { if q < ns.len() { assert(*vx_it_L5.rest()[0] == ns[q]); def_step(E, ns, q); q = q + 1; if E.df.contains_key(*ns[q - 1]) { shape(E.df[*ns[q - 1]].sig); fmt_shape(E.df[*ns[q - 1]].sig); } } }
//@@proof block_nodes.6.before
    let ghost mut q = 0int;
//@@inv block_nodes.6
    invariant
        0 <= q <= ns.len(), ns == names@, vx_it_L6.rest().len() == ns.len() - q, forall|j: int| 0 <= j < ns.len() - q ==> *(#[trigger] vx_it_L6.rest()[j]) == ns[q + j], E.dc == declares.m(),
        sigs_so(E, ns, ns.len() as int, q, idx, id0, indirects.m()), //#C20 C10 the signatures so far lead to the node
        fmts_so(E, ns, ns.len() as int, q, idx, fm0, fmts.s()), //#C10 the formatters
        is_typed <==> any_sig(E, ns, ns.len() as int, q), //#C10 there is type information
    ensures
        q == ns.len(),
    decreases vx_it_L6.rest().len(),
//@@proof block_nodes.6.top
    let ghost (id6, fm6) = (indirects.m(), fmts.s());
    proof { if q < ns.len() { assert(*vx_it_L6.rest()[0] == ns[q]); decl_step(E, ns, q); q = q + 1; if E.dc.contains_key(*ns[q - 1]) && E.dc[*ns[q - 1]].sig is Some { shape(E.dc[*ns[q - 1]].sig->0); fmt_shape(E.dc[*ns[q - 1]].sig->0); } } }
//@@proof block_nodes.6.after
    proof {
        placed_step(E, D0, A, pos, cn, c, g0, g.nodes());
        named_step(E, D0, A, pos, cn, c, p, ns, im0, al0, indices.m(), aliases.m());
        addr_step(D0, A, cn, c, an0, addr2name.m());
        sigs_step(E, D0, A, pos, p, ns, idx, id0, indirects.m());
        fmts_step(E, D0, A, pos, p, ns, idx, fm0, fmts.s());
        rest_step(E, D0, A, cn, c, ns);
        pos = pos.insert(A, p); cn = cn.insert(A, c);
    }
//@@proof block_nodes.0.after
    proof {
        assert forall|a: u64| #[trigger] D.contains(a) <==> E.fm.contains_key(a) by { if E.fm.contains_key(a) { let i = choose|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]).0 == a; assert(among(ds, k, a)); } if D.contains(a) { assert(among(ds, k, a)); } }
        assert(D =~= all(E.fm));
        assert(placed(E, all(E.fm), pos, cn, g.nodes()));
        assert(named_ok(E, all(E.fm), pos, cn, indices.m(), aliases.m()));
        assert(addr_ok(all(E.fm), cn, addr2name.m()));
        assert(sigs_ok(E, all(E.fm), pos, indirects.m()));
        assert(fmts_ok(E, all(E.fm), pos, fmts.s()));
        assert(has_stack_usage_info <==> some_frame(E, all(E.fm), cn));
        assert(has_untyped_symbols <==> some_untyped(E, all(E.fm), cn));
        assert(done_at(E, all(E.fm), pos, cn, g.nodes(), indices.m(), aliases.m(), addr2name.m(), indirects.m(), fmts.s(), has_stack_usage_info, has_untyped_symbols));
    }
//@@code
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
//@@include strs.inc
//@@include fmt.inc
//@@include iter0.inc
//@@include stops.inc
//@@include maps.inc
//@@include graph0.inc
//@@include sets.inc
//@@insert Local
//@@insert Max
//@@insert Node
//@@insert Target
//@@insert Indirect
//@@insert Type
//@@insert FnSig
//@@include sig.inc
//@@include fmtsig.inc
//@@insert Define
//@@insert Stmt
//@@insert Declare
impl Target {
//@@insert Target_is_thumb
}
impl VxDefault for Indirect { open spec fn vx_is_default(&self) -> bool { !self.called && self.callers.s() == ISet::<NodeIndex>::empty() && self.callees.s() == ISet::<NodeIndex>::empty() } }
impl<'a> Clone for FnSig<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
impl<'a> VxBorrow<FnSig<'a>> for FnSig<'a> { open spec fn vx_key(&self) -> FnSig<'a> { *self } }
/// stack_sizes::Function: the names of the symbols at an address
#[verifier::external_body]
pub struct Function<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> Function<'a> {
    pub uninterp spec fn ns(&self) -> Seq<&'a VxStr>;
    #[verifier::external_body]
    pub fn names(&self) -> (r: &Vec<&'a VxStr>)
        ensures r@ == self.ns()
    { unimplemented!() }
}
pub struct Symbols<'a> { pub defined: VxMap<u64, Function<'a>> }
/// u64::from_str_radix(s, 10), s.parse::<u64>()
#[verifier::external_body]
pub fn vx_parse_u64(s: &VxStr) -> (r: Result<u64, VxErr>)
    ensures r is Ok <==> is_u64(s@)
{ unimplemented!() }
/// what u64::from_str_radix(.., 10) accepts
pub uninterp spec fn is_u64(s: Seq<char>) -> bool;
/// OUTLINED_FUNCTION_<number>
pub open spec fn outlined(n: VxStr) -> bool { starts(n@, "OUTLINED_FUNCTION_"@) && is_u64(n@.skip(18)) }
//@@insert is_outlined_function
//@@insert fn_Node
// ------------------------------------------------------------------ functions and their names
pub ghost struct Env<'a> { pub fm: IMap<u64, Function<'a>>, pub ss: IMap<VxStr, u64>, pub df: IMap<VxStr, Define<'a>>, pub dc: IMap<VxStr, Declare<'a>> }
pub open spec fn env<'a>(y: &Symbols<'a>, ss: &VxMap<VxStr, u64>, df: &VxMap<VxStr, Define<'a>>, dc: &VxMap<VxStr, Declare<'a>>) -> Env<'a> { Env { fm: y.defined.m(), ss: ss.m(), df: df.m(), dc: dc.m() } }
/// mapping symbols
pub open spec fn is_tag(n: VxStr) -> bool { n@ == "$a"@ || starts(n@, "$a."@) || n@ == "$x"@ || starts(n@, "$x."@) }
pub open spec fn inn(v: Seq<&VxStr>, k: int, n: VxStr) -> bool { exists|i: int| 0 <= i < k && *(#[trigger] v[i]) == n }
/// n is a name of the function at a
pub open spec fn frame_name<'a>(E: Env<'a>, ns: Seq<&'a VxStr>, f: Option<&&'a VxStr>) -> bool { f is Some ==> inn(ns, ns.len() as int, **(f->0)) && E.ss.contains_key(**(f->0)) }
pub open spec fn named(E: Env, a: u64, n: VxStr) -> bool { E.fm.contains_key(a) && inn(E.fm[a].ns(), E.fm[a].ns().len() as int, n) && !is_tag(n) }
/// every function has a name, names are not used twice
pub open spec fn sane(fm: IMap<u64, Function>) -> bool {
    &&& forall|a: u64| #[trigger] fm.contains_key(a) ==> exists|n: VxStr| inn(fm[a].ns(), fm[a].ns().len() as int, n) && !#[trigger] is_tag(n)
    &&& forall|a: u64, b: u64, n: VxStr| fm.contains_key(a) && fm.contains_key(b) && #[trigger] inn(fm[a].ns(), fm[a].ns().len() as int, n) && !is_tag(n) && #[trigger] inn(fm[b].ns(), fm[b].ns().len() as int, n) ==> a == b
}
/// the name a function is known by: one of its names; one with a recorded frame if there is one
pub open spec fn canonical(E: Env, a: u64, c: VxStr) -> bool {
    named(E, a, c) && ((exists|n: VxStr| #[trigger] named(E, a, n) && E.ss.contains_key(n)) ==> E.ss.contains_key(c))
}
pub open spec fn all(fm: IMap<u64, Function>) -> ISet<u64> { ISet::new(|a: u64| fm.contains_key(a)) }
pub open spec fn node_ok(E: Env, c: VxStr, n: Node) -> bool {
    n.name == c && n.max is None && !n.dashed && n.local == (if E.ss.contains_key(c) { Local::Exact(E.ss[c]) } else { Local::Unknown })
}
/// the functions of D, each at its own node; nothing else
pub open spec fn placed(E: Env, D: ISet<u64>, pos: IMap<u64, int>, cn: IMap<u64, VxStr>, n: Seq<Node>) -> bool {
    &&& forall|a: u64| #[trigger] pos.contains_key(a) <==> D.contains(a)
    &&& forall|a: u64| #[trigger] cn.contains_key(a) <==> D.contains(a)
    &&& forall|a: u64| #[trigger] D.contains(a) ==> E.fm.contains_key(a) && 0 <= pos[a] < n.len() && node_ok(E, cn[a], n[pos[a]]) && canonical(E, a, cn[a])
    &&& forall|a: u64, b: u64| #[trigger] D.contains(a) && #[trigger] D.contains(b) && pos[a] == pos[b] ==> a == b
    &&& forall|i: int| 0 <= i < n.len() ==> is_at(D, pos, i)
}
pub open spec fn is_at(D: ISet<u64>, pos: IMap<u64, int>, i: int) -> bool { exists|a: u64| #[trigger] D.contains(a) && pos[a] == i }
pub open spec fn named_in(E: Env, D: ISet<u64>, n: VxStr) -> bool { exists|a: u64| #[trigger] D.contains(a) && named(E, a, n) }
pub open spec fn named_ok<'a>(E: Env, D: ISet<u64>, pos: IMap<u64, int>, cn: IMap<u64, VxStr>, im: IMap<VxStr, NodeIndex>, al: IMap<VxStr, &'a VxStr>) -> bool {
    &&& forall|n: VxStr| #[trigger] im.contains_key(n) <==> named_in(E, D, n)
    &&& forall|n: VxStr| #[trigger] al.contains_key(n) <==> named_in(E, D, n)
    &&& forall|a: u64, n: VxStr| #[trigger] D.contains(a) && #[trigger] named(E, a, n) ==> im[n].i() == pos[a] && *al[n] == cn[a]
}
pub open spec fn addr_ok<'a>(D: ISet<u64>, cn: IMap<u64, VxStr>, an: IMap<u64, &'a VxStr>) -> bool {
    forall|a: u64| (#[trigger] an.contains_key(a) <==> D.contains(a)) && (D.contains(a) ==> *an[a] == cn[a])
}
/// the program gives the function at a the signature s
pub open spec fn has_sig<'a>(E: Env<'a>, a: u64, s: FnSig<'a>) -> bool { exists|n: VxStr| #[trigger] named(E, a, n) && gives(E, n, s) }
pub open spec fn gives<'a>(E: Env<'a>, n: VxStr, s: FnSig<'a>) -> bool { (E.df.contains_key(n) && E.df[n].sig == s) || (E.dc.contains_key(n) && E.dc[n].sig == Some(s)) }
pub open spec fn sig_at<'a>(E: Env<'a>, D: ISet<u64>, pos: IMap<u64, int>, s: FnSig<'a>, x: NodeIndex) -> bool { exists|a: u64| #[trigger] D.contains(a) && pos[a] == x.i() && has_sig(E, a, s) }
pub open spec fn sig_in<'a>(E: Env<'a>, D: ISet<u64>, s: FnSig<'a>) -> bool { exists|a: u64| #[trigger] D.contains(a) && has_sig(E, a, s) }
pub open spec fn fresh(i: Indirect) -> bool { !i.called && i.callers.s() == ISet::<NodeIndex>::empty() }
pub open spec fn sigs_ok<'a>(E: Env<'a>, D: ISet<u64>, pos: IMap<u64, int>, id: IMap<FnSig<'a>, Indirect>) -> bool {
    &&& forall|s: FnSig<'a>| #[trigger] id.contains_key(s) <==> sig_in(E, D, s)
    &&& forall|s: FnSig<'a>| #[trigger] id.contains_key(s) ==> fresh(id[s])
    &&& forall|s: FnSig<'a>, x: NodeIndex| id.contains_key(s) ==> (#[trigger] id[s].callees.s().contains(x) <==> sig_at(E, D, pos, s, x))
}
/// `i1 (%t*, %core::fmt::Formatter*)`
pub open spec fn is_fmt(k: FnSig) -> bool {
    k.ins().len() == 2 && k.ins()[0] is Ptr && k.ins()[1] == T::Ptr(Box::new(T::Alias("core::fmt::Formatter"@))) && k.out() == Some(Box::new(T::Int(1)))
}
pub open spec fn fmt_at<'a>(E: Env<'a>, D: ISet<u64>, pos: IMap<u64, int>, x: NodeIndex) -> bool { exists|a: u64, s: FnSig<'a>| #[trigger] D.contains(a) && pos[a] == x.i() && #[trigger] has_sig(E, a, s) && is_fmt(s) }
pub open spec fn fmts_ok<'a>(E: Env<'a>, D: ISet<u64>, pos: IMap<u64, int>, f: ISet<NodeIndex>) -> bool { forall|x: NodeIndex| #[trigger] f.contains(x) <==> fmt_at(E, D, pos, x) }
pub open spec fn some_frame(E: Env, D: ISet<u64>, cn: IMap<u64, VxStr>) -> bool { exists|a: u64| #[trigger] D.contains(a) && E.ss.contains_key(cn[a]) }
pub open spec fn typed<'a>(E: Env<'a>, a: u64) -> bool { exists|s: FnSig<'a>| #[trigger] has_sig(E, a, s) }
pub open spec fn some_untyped(E: Env, D: ISet<u64>, cn: IMap<u64, VxStr>) -> bool { exists|a: u64| #[trigger] D.contains(a) && !typed(E, a) && !outlined(cn[a]) }
pub open spec fn done_at<'a>(E: Env<'a>, D: ISet<u64>, pos: IMap<u64, int>, cn: IMap<u64, VxStr>, n: Seq<Node>, im: IMap<VxStr, NodeIndex>, al: IMap<VxStr, &'a VxStr>, an: IMap<u64, &'a VxStr>, id: IMap<FnSig<'a>, Indirect>, f: ISet<NodeIndex>, info: bool, unt: bool) -> bool {
    placed(E, D, pos, cn, n) && named_ok(E, D, pos, cn, im, al) && addr_ok(D, cn, an) && sigs_ok(E, D, pos, id) && fmts_ok(E, D, pos, f) && (info <==> some_frame(E, D, cn)) && (unt <==> some_untyped(E, D, cn))
}
pub open spec fn done<'a>(E: Env<'a>, n: Seq<Node>, im: IMap<VxStr, NodeIndex>, al: IMap<VxStr, &'a VxStr>, an: IMap<u64, &'a VxStr>, id: IMap<FnSig<'a>, Indirect>, f: ISet<NodeIndex>, info: bool, unt: bool) -> bool {
    exists|pos: IMap<u64, int>, cn: IMap<u64, VxStr>| #[trigger] done_at(E, all(E.fm), pos, cn, n, im, al, an, id, f, info, unt)
}
/// the signatures given by the first i names (definitions) and the first j names (declarations)
pub open spec fn sgd<'a>(E: Env<'a>, ns: Seq<&VxStr>, i: int, j: int, s: FnSig<'a>) -> bool {
    ||| exists|q: int| 0 <= q < i && E.df.contains_key(*#[trigger] ns[q]) && E.df[*ns[q]].sig == s
    ||| exists|q: int| 0 <= q < j && E.dc.contains_key(*#[trigger] ns[q]) && E.dc[*ns[q]].sig == Some(s)
}
pub open spec fn sigs_so<'a>(E: Env<'a>, ns: Seq<&VxStr>, i: int, j: int, x: NodeIndex, id0: IMap<FnSig<'a>, Indirect>, id: IMap<FnSig<'a>, Indirect>) -> bool {
    &&& forall|s: FnSig<'a>| #[trigger] id.contains_key(s) <==> id0.contains_key(s) || sgd(E, ns, i, j, s)
    &&& forall|s: FnSig<'a>| #[trigger] id.contains_key(s) ==> fresh(id[s])
    &&& forall|s: FnSig<'a>, y: NodeIndex| id.contains_key(s) ==> (#[trigger] id[s].callees.s().contains(y) <==> (id0.contains_key(s) && id0[s].callees.s().contains(y)) || (y == x && sgd(E, ns, i, j, s)))
}
pub open spec fn any_sig<'a>(E: Env<'a>, ns: Seq<&VxStr>, i: int, j: int) -> bool { exists|s: FnSig<'a>| #[trigger] sgd(E, ns, i, j, s) }
pub open spec fn any_fmt<'a>(E: Env<'a>, ns: Seq<&VxStr>, i: int, j: int) -> bool { exists|s: FnSig<'a>| #[trigger] sgd(E, ns, i, j, s) && is_fmt(s) }
pub open spec fn fmts_so<'a>(E: Env<'a>, ns: Seq<&VxStr>, i: int, j: int, x: NodeIndex, f0: ISet<NodeIndex>, f: ISet<NodeIndex>) -> bool {
    forall|y: NodeIndex| #[trigger] f.contains(y) <==> f0.contains(y) || (y == x && any_fmt(E, ns, i, j))
}
pub open spec fn listed<'a>(fm: IMap<u64, Function<'a>>, ds: Seq<(&u64, &Function<'a>)>) -> bool {
    &&& forall|i: int| 0 <= i < ds.len() ==> fm.contains_key(*(#[trigger] ds[i]).0) && *ds[i].1 == fm[*ds[i].0]
    &&& forall|k: u64| #[trigger] fm.contains_key(k) ==> exists|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < ds.len() && 0 <= j < ds.len() && *(#[trigger] ds[i]).0 == *(#[trigger] ds[j]).0 ==> i == j
}
pub open spec fn among(ds: Seq<(&u64, &Function)>, k: int, a: u64) -> bool { exists|i: int| 0 <= i < k && *(#[trigger] ds[i]).0 == a }
pub proof fn at_step(fm: IMap<u64, Function>, ds: Seq<(&u64, &Function)>, k: int, D: ISet<u64>)
    requires listed(fm, ds), 0 <= k < ds.len(), forall|a: u64| #[trigger] D.contains(a) <==> among(ds, k, a)
    ensures forall|a: u64| #[trigger] D.insert(*ds[k].0).contains(a) <==> among(ds, k + 1, a), !D.contains(*ds[k].0), fm.contains_key(*ds[k].0), *ds[k].1 == fm[*ds[k].0]
{
    assert forall|a: u64| #[trigger] D.insert(*ds[k].0).contains(a) <==> among(ds, k + 1, a) by { if a == *ds[k].0 { assert(*(ds[k]).0 == a); } else if D.contains(a) { let i = choose|i: int| 0 <= i < k && *(#[trigger] ds[i]).0 == a; assert(i < k + 1); } }
}
pub proof fn inn_at(v: Seq<&VxStr>, k: int)
    requires 0 <= k < v.len()
    ensures inn(v, v.len() as int, *v[k])
{}
pub proof fn inn_step(v: Seq<&VxStr>, k: int)
    requires 0 <= k < v.len()
    ensures forall|n: VxStr| #[trigger] inn(v, k + 1, n) <==> inn(v, k, n) || n == *v[k]
{ assert forall|n: VxStr| #[trigger] inn(v, k + 1, n) <==> inn(v, k, n) || n == *v[k] by { if n == *v[k] { assert(*v[k] == n); } } }
pub proof fn inn_push(v: Seq<&VxStr>, x: &VxStr)
    ensures forall|n: VxStr| #[trigger] inn(v.push(x), v.push(x).len() as int, n) <==> inn(v, v.len() as int, n) || n == *x
{
    let w = v.push(x);
    assert forall|n: VxStr| #[trigger] inn(w, w.len() as int, n) <==> inn(v, v.len() as int, n) || n == *x by {
        if n == *x { assert(*w[v.len() as int] == n); }
        if inn(v, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == n; assert(*w[i] == n); }
    }
}
pub open spec fn are_names(E: Env, a: u64, ns: Seq<&VxStr>) -> bool { forall|n: VxStr| #[trigger] inn(ns, ns.len() as int, n) <==> named(E, a, n) }
pub proof fn our_names(E: Env, a: u64, raw: Seq<&VxStr>, ns: Seq<&VxStr>)
    requires sane(E.fm), E.fm.contains_key(a), raw == E.fm[a].ns(), forall|n: VxStr| #[trigger] inn(ns, ns.len() as int, n) <==> inn(raw, raw.len() as int, n) && !is_tag(n)
    ensures are_names(E, a, ns), ns.len() > 0
{
    let n = choose|n: VxStr| inn(raw, raw.len() as int, n) && !#[trigger] is_tag(n);
    assert(inn(ns, ns.len() as int, n));
}
pub proof fn is_canonical(E: Env, a: u64, ns: Seq<&VxStr>, c: VxStr)
    requires are_names(E, a, ns), inn(ns, ns.len() as int, c), E.ss.contains_key(c) || (forall|j: int| 0 <= j < ns.len() ==> !E.ss.contains_key(*#[trigger] ns[j]))
    ensures canonical(E, a, c)
{
    assert(named(E, a, c));
    assert forall|n: VxStr| #[trigger] named(E, a, n) && E.ss.contains_key(n) implies E.ss.contains_key(c) by { assert(inn(ns, ns.len() as int, n)); }
}
pub proof fn begin<'a>(E: Env<'a>, n: Seq<Node>, im: IMap<VxStr, NodeIndex>, al: IMap<VxStr, &'a VxStr>, an: IMap<u64, &'a VxStr>, id: IMap<FnSig<'a>, Indirect>, f: ISet<NodeIndex>)
    requires n.len() == 0, im == IMap::<VxStr, NodeIndex>::empty(), al == IMap::<VxStr, &'a VxStr>::empty(), an == IMap::<u64, &'a VxStr>::empty(), id == IMap::<FnSig<'a>, Indirect>::empty(), f == ISet::<NodeIndex>::empty()
    ensures
        placed(E, ISet::empty(), IMap::empty(), IMap::empty(), n), named_ok(E, ISet::empty(), IMap::empty(), IMap::empty(), im, al), addr_ok(ISet::empty(), IMap::empty(), an),
        sigs_ok(E, ISet::empty(), IMap::empty(), id), fmts_ok(E, ISet::empty(), IMap::empty(), f), !some_frame(E, ISet::empty(), IMap::empty()), !some_untyped(E, ISet::empty(), IMap::empty()),
{}
pub proof fn placed_step(E: Env, D: ISet<u64>, a: u64, pos: IMap<u64, int>, cn: IMap<u64, VxStr>, c: VxStr, n0: Seq<Node>, n: Seq<Node>)
    requires placed(E, D, pos, cn, n0), !D.contains(a), E.fm.contains_key(a), canonical(E, a, c), n0.len() + 1 == n.len(), n == n0.push(n.last()), node_ok(E, c, n.last())
    ensures placed(E, D.insert(a), pos.insert(a, n0.len() as int), cn.insert(a, c), n)
{
    let (D1, pos1) = (D.insert(a), pos.insert(a, n0.len() as int));
    assert forall|i: int| 0 <= i < n.len() implies is_at(D1, pos1, i) by {
        if i < n0.len() { assert(is_at(D, pos, i)); let b = choose|b: u64| #[trigger] D.contains(b) && pos[b] == i; assert(D1.contains(b) && pos1[b] == i); } else { assert(D1.contains(a)); }
    }
}
pub proof fn named_step<'a>(E: Env, D: ISet<u64>, a: u64, pos: IMap<u64, int>, cn: IMap<u64, VxStr>, c: VxStr, p: int, ns: Seq<&VxStr>, im0: IMap<VxStr, NodeIndex>, al0: IMap<VxStr, &'a VxStr>, im: IMap<VxStr, NodeIndex>, al: IMap<VxStr, &'a VxStr>)
    requires
        sane(E.fm), named_ok(E, D, pos, cn, im0, al0), !D.contains(a), are_names(E, a, ns),
        forall|n: VxStr| #[trigger] al.contains_key(n) <==> al0.contains_key(n) || inn(ns, ns.len() as int, n),
        forall|n: VxStr| #[trigger] al.contains_key(n) ==> *al[n] == (if inn(ns, ns.len() as int, n) { c } else { *al0[n] }),
        forall|n: VxStr| #[trigger] im.contains_key(n) <==> im0.contains_key(n) || inn(ns, ns.len() as int, n),
        forall|n: VxStr| #[trigger] im.contains_key(n) ==> im[n].i() == (if inn(ns, ns.len() as int, n) { p } else { im0[n].i() }),
    ensures named_ok(E, D.insert(a), pos.insert(a, p), cn.insert(a, c), im, al)
{
    let D1 = D.insert(a);
    assert forall|n: VxStr| named_in(E, D1, n) <==> named_in(E, D, n) || #[trigger] inn(ns, ns.len() as int, n) by {
        if named_in(E, D, n) { let b = choose|b: u64| #[trigger] D.contains(b) && named(E, b, n); assert(D1.contains(b)); }
        if inn(ns, ns.len() as int, n) { assert(D1.contains(a) && named(E, a, n)); }
    }
    assert forall|n: VxStr| #[trigger] im.contains_key(n) <==> named_in(E, D1, n) by { assert(inn(ns, ns.len() as int, n) || !inn(ns, ns.len() as int, n)); }
    assert forall|n: VxStr| #[trigger] al.contains_key(n) <==> named_in(E, D1, n) by { assert(inn(ns, ns.len() as int, n) || !inn(ns, ns.len() as int, n)); }
    assert forall|b: u64, n: VxStr| #[trigger] D1.contains(b) && #[trigger] named(E, b, n) implies im[n].i() == pos.insert(a, p)[b] && *al[n] == cn.insert(a, c)[b] by {
        assert(im.contains_key(n) && al.contains_key(n)) by { assert(named_in(E, D1, n)); }
        if b == a { assert(inn(ns, ns.len() as int, n)); } else {
            assert(D.contains(b));
            if inn(ns, ns.len() as int, n) { assert(named(E, a, n)); assert(inn(E.fm[a].ns(), E.fm[a].ns().len() as int, n) && inn(E.fm[b].ns(), E.fm[b].ns().len() as int, n)); assert(false); }
        }
    }
}
pub proof fn addr_step<'a>(D: ISet<u64>, a: u64, cn: IMap<u64, VxStr>, c: VxStr, an0: IMap<u64, &'a VxStr>, an: IMap<u64, &'a VxStr>)
    requires addr_ok(D, cn, an0), an.contains_key(a), an == an0.insert(a, an[a]), *an[a] == c
    ensures addr_ok(D.insert(a), cn.insert(a, c), an)
{
    assert forall|b: u64| (#[trigger] an.contains_key(b) <==> D.insert(a).contains(b)) && (D.insert(a).contains(b) ==> *an[b] == cn.insert(a, c)[b]) by { if b != a { assert(an0.insert(a, an[a]).contains_key(b) <==> an0.contains_key(b)); assert(D.insert(a).contains(b) <==> D.contains(b)); if D.contains(b) { assert(an[b] == an0[b]); } } }
}
pub proof fn sig_names<'a>(E: Env<'a>, a: u64, ns: Seq<&VxStr>)
    requires are_names(E, a, ns)
    ensures forall|s: FnSig<'a>| #[trigger] has_sig(E, a, s) <==> sgd(E, ns, ns.len() as int, ns.len() as int, s)
{
    let l = ns.len() as int;
    assert forall|s: FnSig<'a>| #[trigger] has_sig(E, a, s) <==> sgd(E, ns, l, l, s) by {
        if has_sig(E, a, s) { let n = choose|n: VxStr| #[trigger] named(E, a, n) && gives(E, n, s); assert(inn(ns, l, n)); let q = choose|q: int| 0 <= q < l && *(#[trigger] ns[q]) == n; assert(gives(E, *ns[q], s)); }
        if sgd(E, ns, l, l, s) {
            if exists|q: int| 0 <= q < l && E.df.contains_key(*#[trigger] ns[q]) && E.df[*ns[q]].sig == s { let q = choose|q: int| 0 <= q < l && E.df.contains_key(*#[trigger] ns[q]) && E.df[*ns[q]].sig == s; inn_at(ns, q); assert(named(E, a, *ns[q]) && gives(E, *ns[q], s)); }
            else { let q = choose|q: int| 0 <= q < l && E.dc.contains_key(*#[trigger] ns[q]) && E.dc[*ns[q]].sig == Some(s); inn_at(ns, q); assert(named(E, a, *ns[q]) && gives(E, *ns[q], s)); }
        }
    }
}
pub proof fn sigs_step<'a>(E: Env<'a>, D: ISet<u64>, a: u64, pos: IMap<u64, int>, p: int, ns: Seq<&VxStr>, x: NodeIndex, id0: IMap<FnSig<'a>, Indirect>, id: IMap<FnSig<'a>, Indirect>)
    requires sigs_ok(E, D, pos, id0), !D.contains(a), are_names(E, a, ns), x.i() == p, sigs_so(E, ns, ns.len() as int, ns.len() as int, x, id0, id)
    ensures sigs_ok(E, D.insert(a), pos.insert(a, p), id)
{
    let (D1, pos1, l) = (D.insert(a), pos.insert(a, p), ns.len() as int);
    sig_names(E, a, ns);
    assert forall|s: FnSig<'a>| sig_in(E, D1, s) <==> sig_in(E, D, s) || #[trigger] sgd(E, ns, l, l, s) by {
        if sig_in(E, D, s) { let b = choose|b: u64| #[trigger] D.contains(b) && has_sig(E, b, s); assert(D1.contains(b)); }
        if sgd(E, ns, l, l, s) { assert(D1.contains(a) && has_sig(E, a, s)); }
    }
    assert forall|s: FnSig<'a>| #[trigger] id.contains_key(s) <==> sig_in(E, D1, s) by { if sig_in(E, D1, s) { let b = choose|b: u64| #[trigger] D1.contains(b) && has_sig(E, b, s); if b != a { assert(D.contains(b)); assert(sig_in(E, D, s)); } else { assert(sgd(E, ns, l, l, s)); } } if sgd(E, ns, l, l, s) { assert(D1.contains(a) && has_sig(E, a, s)); } assert(sig_in(E, D1, s) <==> sig_in(E, D, s) || sgd(E, ns, l, l, s)); assert(id.contains_key(s) <==> id0.contains_key(s) || sgd(E, ns, l, l, s)); assert(id0.contains_key(s) <==> sig_in(E, D, s)); }
    assert forall|s: FnSig<'a>, y: NodeIndex| id.contains_key(s) implies (#[trigger] id[s].callees.s().contains(y) <==> sig_at(E, D1, pos1, s, y)) by {
        if sig_at(E, D1, pos1, s, y) { let b = choose|b: u64| #[trigger] D1.contains(b) && pos1[b] == y.i() && has_sig(E, b, s); if b != a { assert(D.contains(b)); assert(sig_at(E, D, pos, s, y)); assert(sig_in(E, D, s)); } else { assert(y == x); } }
        if id[s].callees.s().contains(y) {
            if y == x && sgd(E, ns, l, l, s) { assert(D1.contains(a) && pos1[a] == y.i() && has_sig(E, a, s)); }
            else { assert(sig_at(E, D, pos, s, y)); let b = choose|b: u64| #[trigger] D.contains(b) && pos[b] == y.i() && has_sig(E, b, s); assert(D1.contains(b) && pos1[b] == y.i()); }
        }
    }
}
pub proof fn fmts_step<'a>(E: Env<'a>, D: ISet<u64>, a: u64, pos: IMap<u64, int>, p: int, ns: Seq<&VxStr>, x: NodeIndex, f0: ISet<NodeIndex>, f: ISet<NodeIndex>)
    requires fmts_ok(E, D, pos, f0), !D.contains(a), are_names(E, a, ns), x.i() == p, fmts_so(E, ns, ns.len() as int, ns.len() as int, x, f0, f)
    ensures fmts_ok(E, D.insert(a), pos.insert(a, p), f)
{
    let (D1, pos1, l) = (D.insert(a), pos.insert(a, p), ns.len() as int);
    sig_names(E, a, ns);
    assert forall|y: NodeIndex| #[trigger] f.contains(y) <==> fmt_at(E, D1, pos1, y) by {
        if fmt_at(E, D1, pos1, y) { let (b, s) = choose|b: u64, s: FnSig<'a>| #[trigger] D1.contains(b) && pos1[b] == y.i() && #[trigger] has_sig(E, b, s) && is_fmt(s); if b != a { assert(D.contains(b)); assert(fmt_at(E, D, pos, y)); } else { assert(y == x); assert(sgd(E, ns, l, l, s)); } }
        if f.contains(y) {
            if f0.contains(y) { assert(fmt_at(E, D, pos, y)); let (b, s) = choose|b: u64, s: FnSig<'a>| #[trigger] D.contains(b) && pos[b] == y.i() && #[trigger] has_sig(E, b, s) && is_fmt(s); assert(D1.contains(b) && pos1[b] == y.i()); }
            else { let s = choose|s: FnSig<'a>| #[trigger] sgd(E, ns, l, l, s) && is_fmt(s); assert(has_sig(E, a, s)); assert(D1.contains(a)); }
        }
    }
}
pub proof fn rest_step(E: Env, D: ISet<u64>, a: u64, cn: IMap<u64, VxStr>, c: VxStr, ns: Seq<&VxStr>)
    requires !D.contains(a), are_names(E, a, ns)
    ensures
        some_frame(E, D.insert(a), cn.insert(a, c)) <==> some_frame(E, D, cn) || E.ss.contains_key(c),
        some_untyped(E, D.insert(a), cn.insert(a, c)) <==> some_untyped(E, D, cn) || (!any_sig(E, ns, ns.len() as int, ns.len() as int) && !outlined(c)),
{
    let (D1, cn1, l) = (D.insert(a), cn.insert(a, c), ns.len() as int);
    sig_names(E, a, ns);
    assert(D1.contains(a) && cn1[a] == c);
    assert(typed(E, a) <==> exists|s: FnSig| #[trigger] sgd(E, ns, l, l, s)) by {
        if exists|s: FnSig| #[trigger] sgd(E, ns, l, l, s) { let s = choose|s: FnSig| #[trigger] sgd(E, ns, l, l, s); assert(has_sig(E, a, s)); }
        if typed(E, a) { let s = choose|s: FnSig| #[trigger] has_sig(E, a, s); assert(sgd(E, ns, l, l, s)); }
    }
    if some_frame(E, D, cn) { let b = choose|b: u64| #[trigger] D.contains(b) && E.ss.contains_key(cn[b]); assert(D1.contains(b) && cn1[b] == cn[b]); }
    if some_untyped(E, D, cn) { let b = choose|b: u64| #[trigger] D.contains(b) && !typed(E, b) && !outlined(cn[b]); assert(D1.contains(b) && cn1[b] == cn[b]); }
    if some_frame(E, D1, cn1) { let b = choose|b: u64| #[trigger] D1.contains(b) && E.ss.contains_key(cn1[b]); if b != a { assert(D.contains(b) && cn1[b] == cn[b]); } }
    if some_untyped(E, D1, cn1) { let b = choose|b: u64| #[trigger] D1.contains(b) && !typed(E, b) && !outlined(cn1[b]); if b != a { assert(D.contains(b) && cn1[b] == cn[b]); } }
}
pub proof fn unfold_sigs<'a>(E: Env<'a>, D: ISet<u64>, pos: IMap<u64, int>, id: IMap<FnSig<'a>, Indirect>)
    requires sigs_ok(E, D, pos, id)
    ensures forall|s: FnSig<'a>| #[trigger] id.contains_key(s) ==> fresh(id[s])
{}
pub proof fn fmt_shape<'a>(k: FnSig<'a>)
    ensures is_fmt(k) <==> k.inputs@.len() == 2 && k.inputs@[0] is Pointer && k.inputs@[1] is Pointer && (*k.inputs@[1]->Pointer_0).t() == T::Alias("core::fmt::Formatter"@) && k.output is Some && (*k.output->0).t() == T::Int(1)
{ ts_at(k.inputs@); }
pub proof fn def_step<'a>(E: Env<'a>, ns: Seq<&VxStr>, q: int)
    requires 0 <= q < ns.len()
    ensures
        forall|s: FnSig<'a>| #[trigger] sgd(E, ns, q + 1, 0, s) <==> sgd(E, ns, q, 0, s) || (E.df.contains_key(*ns[q]) && s == E.df[*ns[q]].sig),
        any_sig(E, ns, q + 1, 0) <==> any_sig(E, ns, q, 0) || E.df.contains_key(*ns[q]),
        any_fmt(E, ns, q + 1, 0) <==> any_fmt(E, ns, q, 0) || (E.df.contains_key(*ns[q]) && is_fmt(E.df[*ns[q]].sig)),
{
    assert forall|s: FnSig<'a>| #[trigger] sgd(E, ns, q + 1, 0, s) <==> sgd(E, ns, q, 0, s) || (E.df.contains_key(*ns[q]) && s == E.df[*ns[q]].sig) by { assert(*ns[q] == *ns[q]); }
    if E.df.contains_key(*ns[q]) { assert(sgd(E, ns, q + 1, 0, E.df[*ns[q]].sig)); }
    if any_sig(E, ns, q, 0) { let s = choose|s: FnSig<'a>| #[trigger] sgd(E, ns, q, 0, s); assert(sgd(E, ns, q + 1, 0, s)); }
    if any_fmt(E, ns, q, 0) { let s = choose|s: FnSig<'a>| #[trigger] sgd(E, ns, q, 0, s) && is_fmt(s); assert(sgd(E, ns, q + 1, 0, s)); }
}
pub proof fn decl_step<'a>(E: Env<'a>, ns: Seq<&VxStr>, q: int)
    requires 0 <= q < ns.len()
    ensures
        forall|s: FnSig<'a>| #[trigger] sgd(E, ns, ns.len() as int, q + 1, s) <==> sgd(E, ns, ns.len() as int, q, s) || (E.dc.contains_key(*ns[q]) && Some(s) == E.dc[*ns[q]].sig),
        any_sig(E, ns, ns.len() as int, q + 1) <==> any_sig(E, ns, ns.len() as int, q) || (E.dc.contains_key(*ns[q]) && E.dc[*ns[q]].sig is Some),
        any_fmt(E, ns, ns.len() as int, q + 1) <==> any_fmt(E, ns, ns.len() as int, q) || (E.dc.contains_key(*ns[q]) && E.dc[*ns[q]].sig is Some && is_fmt(E.dc[*ns[q]].sig->0)),
{
    let l = ns.len() as int;
    assert forall|s: FnSig<'a>| #[trigger] sgd(E, ns, l, q + 1, s) <==> sgd(E, ns, l, q, s) || (E.dc.contains_key(*ns[q]) && Some(s) == E.dc[*ns[q]].sig) by { assert(*ns[q] == *ns[q]); }
    if E.dc.contains_key(*ns[q]) && E.dc[*ns[q]].sig is Some { assert(sgd(E, ns, l, q + 1, E.dc[*ns[q]].sig->0)); }
    if any_sig(E, ns, l, q) { let s = choose|s: FnSig<'a>| #[trigger] sgd(E, ns, l, q, s); assert(sgd(E, ns, l, q + 1, s)); }
    if any_fmt(E, ns, l, q) { let s = choose|s: FnSig<'a>| #[trigger] sgd(E, ns, l, q, s) && is_fmt(s); assert(sgd(E, ns, l, q + 1, s)); }
}
//@@insert block_nodes
fn main() {}
}
