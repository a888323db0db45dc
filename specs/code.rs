// C01, C02, C17, C19: what the machine code adds to the graph
//@@spec Target_is_thumb
    ensures ret == (*self is Thumbv6m || *self is Thumbv7m), //#C01 C19 which targets are Thumb
//@@spec fn_Node
    ensures
        ret.name == name.vx_s(), ret.max is None, ret.dashed == dashed,
        stack is None ==> ret.local is Unknown, stack is Some ==> ret.local == Local::Exact(stack->0), //#C02 C19 the frame of the node
//@@spec is_outlined_function
    ensures ret == outlined(*name), //#C19 what LLVM's outliner calls its functions
//@@proof is_outlined_function.entry
    proof { reveal_strlit("OUTLINED_FUNCTION_"); }
//@@spec code_order
    ensures ret == order(*vx_a, *vx_b), //#C03 mapping symbols are ordered by address
//@@spec block_code
    requires
        target_ is Thumbv6m || target_ is Thumbv7m ==> ready(elf@, env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, elf@, Seq::empty()), g, edges.m()),
        target_ is Thumbv6m || target_ is Thumbv7m ==> may_stop() || consistent(elf@, env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, elf@, Seq::empty()), g.nodes()),
    ensures
        ret is Err ==> (target_ is Thumbv6m || target_ is Thumbv7m) && !elf_ok(elf@), //#C01 C19 only an unreadable program is an error
        ret is Ok && !((target_ is Thumbv6m || target_ is Thumbv7m) && has_sect(elf@, ".text"@)) ==> (ret->Ok_0).0 == g && (ret->Ok_0).1 == edges, //#C01 C19 other code is left alone
        ret is Ok && (target_ is Thumbv6m || target_ is Thumbv7m) && has_sect(elf@, ".text"@) ==> done(elf@, env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, elf@, Seq::empty()), g, (ret->Ok_0).0), //#C01 C02 C17 C19 what `calls`, `unknown`, `simple`, `frames` and `agree` say holds of all functions
//@@proof block_code.entry
    hide(calls); hide(unknown); hide(simple); hide(frames); hide(agreed); hide(seen_ok); hide(ec); hide(grown); hide(outlined); hide(tags_of);
    let ghost B = elf@;
    let ghost E0 = env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, elf@, Seq::empty());
    let ghost gi = g;
    let ghost (n0, e0, em0, k0) = (g.nodes(), g.edges(), edges.m(), g.nodes().len() as int);
//@@proof block_code.0.before
    let ghost es = vx_it_L0.rest();
    let ghost mut q = 0int;
    proof { tags_start(entries@); }
//@@inv block_code.0
    invariant
        0 <= q <= es.len(), vx_it_L0.rest() =~= es.skip(q), es.len() == entries@.len(), forall|i: int| 0 <= i < es.len() ==> *(#[trigger] es[i]) == entries@[i],
        vx_v_L0@ == tags_of(entries@.take(q)), //#C03 C01 the mapping symbols so far
    ensures
        q == es.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_code.0.top
    proof { if q < es.len() { assert(es.skip(q)[0] == es[q]); assert(es.skip(q).drop_first() =~= es.skip(q + 1)); tags_step(entries@, q); q = q + 1; } }
//@@proof block_code.0.after
    proof { assert(entries@.take(q) =~= entries@); }
//@@proof block_code.1.before
    let ghost E = with(E0, tags@);
    let ghost ds = vx_it_L1.rest();
    let ghost mut k = 0int;
    let ghost mut D = ISet::<u64>::empty();
    let ghost mut qp = IMap::<u64, int>::empty();
    proof {
        assert(arranged(tags@, maps(B)));
        no_edges(g, k0);
        begin(E, n0, e0, k0);
    }
//@@inv block_code.1
    invariant
        E == with(E0, tags@), E0 == env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, B, Seq::empty()), strict(E.tags), k0 == n0.len(),
        stext == E.stext, text@ == E.text, wide(E, n0, k0), may_stop() || fitting(E, n0),
        0 <= k <= ds.len(), vx_it_L1.rest() =~= ds.skip(k), listed(E.fm, ds), forall|a: u64| #[trigger] D.contains(a) <==> among(ds, k, a), forall|a: u64| #[trigger] D.contains(a) ==> E.fm.contains_key(a),
        frames(E, D, n0, g.nodes()), //#C19 frames are corrected only where documented
        agreed(E, D, n0), //#C19 any other disagreement stops the tool
        calls(E, D, k0, e0, g.edges()), //#C01 every call and out-of-function branch is an edge, nothing else is
        unknown(E, D, k0, qp, g.nodes(), g.edges()), //#C02 indirect calls of functions without type information lead to the unknown node
        simple(g.edges()), //#C17 at most one edge per pair
        seen_ok(edges.m(), k0, g.edges()), //#C17 the edges made are on record
        g.wf(),
    ensures
        k == ds.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_code.1.top
    let ghost (g1, n1, e1, em1, D1, qp1) = (g, g.nodes(), g.edges(), edges.m(), D, qp);
    let ghost A = if k < ds.len() { *ds[k].0 } else { 0 };
    let ghost (c, sl) = (caller_of(E, A), code_of(E, A));
    let ghost mut T = ISet::<int>::empty();
    proof {
        if k < ds.len() {
            assert(ds.skip(k)[0] == ds[k]); assert(ds.skip(k).drop_first() =~= ds.skip(k + 1));
            at_step(E.fm, ds, k, D1); untouched(E, D1, A, k0, n0, n1);
            assert(placed_at(E, k0, A)); assert(may_stop() || fits(E, n0, A));
            forall_gap(E.tags, A as int);
            D = D.insert(A); k = k + 1;
        }
    }
//@@proof block_code.2.before
    let ghost bl = vx_it_L2.rest();
    let ghost mut q = 0int;
    let ghost e2 = g.edges();
    let ghost n2 = g.nodes();
    proof {
        assert(address == A && caller == c); //#C01 C19 whose code it is
        assert(size == size_of(E, A)); //#C03 C01 where the function ends
        assert((Code { bls: bl, bs: bs@, indirect: indirect, sp: modifies_sp, stack: our_stack }) == sl); //#C01 C02 C03 C04 C19 the code analysed is the function's
        assert(n2[c.i()].local == fixed(E, A, n0[c.i()].local)); //#C19 the frame
        assert(agree(E, A, n0[c.i()].local)); //#C19 what stops the tool
        if wq(E, A) {
            simple_q(e2, g1, c.i()); //#C02 the edge to the unknown node
        } else {
            assert(e2 == e1); //#C02 no edge to an unknown node
        }
        grow_start(e2, c, k0);
        seen_start(em1, k0, e1, e2, c, *callees_seen); //#C17 the edges made before are on record
    }
//@@inv block_code.2
    invariant
        0 <= q <= bl.len(), bl == sl.bls, vx_it_L2.rest() =~= bl.skip(q), sl == code_of(E, A), c == caller_of(E, A), address == A, caller == c, wide(E, n0, k0), placed_at(E, k0, A), may_stop() || fits(E, n0, A),
        E == with(E0, tags@), E0 == env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, B, Seq::empty()), k0 <= n2.len(),
        grown(e2, g.edges(), c, k0, T), //#C01 the calls so far are edges
        seen(callees_seen.s(), k0, g.edges(), c), simple(g.edges()), //#C17 at most one edge per pair
        forall|y: int| #[trigger] T.contains(y) <==> bl_to(E, A, bl, q, y), //#C01 every BL so far leads to its target
        g.nodes() == n2, g.wf(),
    ensures
        q == bl.len(),
    decreases vx_it_L2.rest().len(),
//@@proof block_code.2.top
    let ghost (e3, s3, T3) = (g.edges(), callees_seen.s(), T);
    let ghost t3 = if q < bl.len() { A + bl[q] } else { 0 };
    let ghost x3 = E.im[*E.an[t3 as u64]];
    proof { if q < bl.len() { assert(bl.skip(q)[0] == bl[q]); assert(bl.skip(q).drop_first() =~= bl.skip(q + 1)); q = q + 1; } }
//@@proof block_code.2.end
    proof {
        assert(dest(E, t3, x3.i())); //#C01 the target
        seen_at(s3, k0, e3, c, x3);
        T = T.insert(x3.i());
        grow_step(e2, e3, g.edges(), c, k0, T3, x3.i()); //#C01 C17 the edge
        assert(s3.contains(x3) ==> s3.insert(x3) =~= s3);
        seen_step(s3, callees_seen.s(), k0, e3, g.edges(), c, x3); //#C17 the edge is on record
        bl_step(E, A, bl, q - 1, x3.i());
    }
//@@proof block_code.2.after
    let ghost T2 = T;
//@@proof block_code.3.before
    let ghost bb = vx_it_L3.rest();
    let ghost mut q = 0int;
//@@inv block_code.3
    invariant
        0 <= q <= bb.len(), bb == sl.bs, vx_it_L3.rest() =~= bb.skip(q), sl == code_of(E, A), c == caller_of(E, A), address == A, caller == c, size == size_of(E, A), wide(E, n0, k0), placed_at(E, k0, A), may_stop() || fits(E, n0, A),
        E == with(E0, tags@), E0 == env(symbols, aliases, indices, addr2name, fns_containing_asm, defined, target_, B, Seq::empty()), k0 <= n2.len(),
        grown(e2, g.edges(), c, k0, T), //#C01 the calls so far are edges
        seen(callees_seen.s(), k0, g.edges(), c), simple(g.edges()), //#C17 at most one edge per pair
        forall|y: int| #[trigger] T.contains(y) <==> T2.contains(y) || b_to(E, A, bb, q, y), //#C01 every branch so far that leaves the function leads to its target
        g.nodes() == n2, g.wf(),
    ensures
        q == bb.len(),
    decreases vx_it_L3.rest().len(),
//@@proof block_code.3.top
    let ghost (e4, s4, T4) = (g.edges(), callees_seen.s(), T);
    let ghost t4 = if q < bb.len() { A + bb[q] } else { 0 };
    let ghost x4 = E.im[*E.an[t4 as u64]];
    proof { if q < bb.len() { assert(bb.skip(q)[0] == bb[q]); assert(bb.skip(q).drop_first() =~= bb.skip(q + 1)); q = q + 1; } }
//@@proof block_code.3.end
    proof {
        b_step(E, A, bb, q - 1);
        if out(E, A, bb[q - 1]) {
            assert(dest(E, t4, x4.i())); //#C01 the target
            seen_at(s4, k0, e4, c, x4);
            T = T.insert(x4.i());
            grow_step(e2, e4, g.edges(), c, k0, T4, x4.i()); //#C01 C17 the edge
            assert(s4.contains(x4) ==> s4.insert(x4) =~= s4);
            seen_step(s4, callees_seen.s(), k0, e4, g.edges(), c, x4); //#C17 the edge is on record
        }
    }
//@@proof block_code.3.after
    proof {
        assert forall|y: int| #[trigger] T.contains(y) <==> tgt(E, A, y) by { tgts(E, A, y); assert(T2.contains(y) <==> bl_to(E, A, bl, bl.len() as int, y)); }
        frames_step(E, D1, A, k0, n0, n1, g.nodes()); //#C19 only this frame changes
        agreed_step(E, D1, A, n0); //#C19 what stops the tool
        calls_step(E, D1, A, k0, e0, e1, e2, g.edges(), T); //#C01 the calls of this function are edges
        unknown_step(E, D1, A, k0, qp1, n1, g.nodes(), g1, e2, g.edges(), T); //#C02 the unknown node of this function
        if wq(E, A) { qp = qp.insert(A, n1.len() as int); }
        seen_end(em1, edges.m(), k0, e1, e2, g.edges(), c, T); //#C17 the edges are on record
    }
//@@proof block_code.1.after
    proof {
        assert forall|a: u64| D.contains(a) <==> all(E.fm).contains(a) by { if E.fm.contains_key(a) { let i = choose|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]).0 == a; assert(among(ds, ds.len() as int, a)); } }
        assert(D =~= all(E.fm));
        assert(done_by(E0, tags@, k0, qp, gi, g));
    }
//@@code
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
//@@include strs.inc
//@@include iter0.inc
//@@include maps.inc
//@@include graph0.inc
//@@include ecount.inc
//@@include sets.inc
//@@insert Local
//@@insert Max
//@@insert Node
//@@insert Target
//@@insert Tag
impl Target {
//@@insert Target_is_thumb
}
//@@insert fn_Node
impl<T> VxItInto<T> for Vec<T> {
    open spec fn vx_into_items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: VxIter<T>) { unimplemented!() }
}
// ------------------------------------------------------------------ failing loudly
/// the program may be one the tool refuses (unwrap, expect, panic!, assert! and slice indices stop the tool)
pub uninterp spec fn may_stop() -> bool;
pub trait VxOpt<T> { spec fn vx_o(&self) -> Option<T>; }
impl<T> VxOpt<T> for Option<T> { open spec fn vx_o(&self) -> Option<T> { *self } }
impl<T> VxOpt<T> for Result<T, VxErr> { open spec fn vx_o(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } }
#[verifier::external_body]
pub fn vx_expect<T, O: VxOpt<T>>(o: O) -> (r: T)
    requires may_stop() || o.vx_o() is Some
    ensures o.vx_o() == Some(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_assert(b: bool)
    requires may_stop() || b
    ensures b
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T)
    requires may_stop()
    ensures false
{ unimplemented!() }
/// &s[a..b]
#[verifier::external_body]
pub fn vx_range<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8])
    requires may_stop() || a <= b <= s@.len()
    ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int)
{ unimplemented!() }
pub struct VxErr {}
/// `x as i32`, `x as u32`, `x as u64`
pub open spec fn word(x: int) -> int { x % 0x1_0000_0000 }
pub trait VxWrap: Sized {
    spec fn w(self) -> int;
    fn vx_u32(self) -> (r: u32)
        ensures r == word(self.w()), 0 <= self.w() < 0x1_0000_0000 ==> r == self.w();
    fn vx_i32(self) -> (r: i32)
        ensures 0 <= self.w() < 0x1_0000_0000 ==> r == signed(self.w());
    fn vx_u64(self) -> (r: u64)
        ensures r == (if self.w() < 0 { self.w() + 0x1_0000_0000_0000_0000 } else { self.w() });
}
pub open spec fn signed(x: int) -> int { if x < 0x8000_0000 { x } else { x - 0x1_0000_0000 } }
impl VxWrap for u64 {
    open spec fn w(self) -> int { self as int }
    #[verifier::external_body] fn vx_u32(self) -> u32 { self as u32 }
    #[verifier::external_body] fn vx_i32(self) -> i32 { self as i32 }
    #[verifier::external_body] fn vx_u64(self) -> u64 { self }
}
impl VxWrap for u32 {
    open spec fn w(self) -> int { self as int }
    #[verifier::external_body] fn vx_u32(self) -> u32 { self }
    #[verifier::external_body] fn vx_i32(self) -> i32 { self as i32 }
    #[verifier::external_body] fn vx_u64(self) -> u64 { self as u64 }
}
impl VxWrap for i32 {
    open spec fn w(self) -> int { self as int }
    #[verifier::external_body] fn vx_u32(self) -> u32 { self as u32 }
    #[verifier::external_body] fn vx_i32(self) -> i32 { self }
    #[verifier::external_body] fn vx_u64(self) -> u64 { self as u64 }
}
impl VxWrap for i64 {
    open spec fn w(self) -> int { self as int }
    #[verifier::external_body] fn vx_u32(self) -> u32 { self as u32 }
    #[verifier::external_body] fn vx_i32(self) -> i32 { self as i32 }
    #[verifier::external_body] fn vx_u64(self) -> u64 { self as u64 }
}
// ------------------------------------------------------------------ the program file (xmas-elf, assumed)
pub uninterp spec fn elf_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn has_sect(b: Seq<u8>, n: Seq<char>) -> bool;
pub uninterp spec fn sect_addr(b: Seq<u8>, n: Seq<char>) -> u64;
pub uninterp spec fn sect_data(b: Seq<u8>, n: Seq<char>) -> Seq<u8>;
/// the entries of a table of 32-bit symbols
pub uninterp spec fn syms(b: Seq<u8>, n: Seq<char>) -> Option<Seq<Entry>>;
#[verifier::external_body]
pub struct ElfFile<'a> { x: &'a [u8] }
#[verifier::external_body]
pub struct SectionHeader<'a> { x: &'a [u8] }
#[verifier::external_body]
pub struct Entry { x: u8 }
pub enum SectionData<'a> { SymbolTable32(&'a Vec<Entry>), Other }
impl<'a> ElfFile<'a> {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(v: &'a Vec<u8>) -> (r: Result<ElfFile<'a>, VxErr>)
        ensures r is Ok <==> elf_ok(v@), r is Ok ==> (r->Ok_0).b() == v@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_section_by_name(&self, n: &VxStr) -> (r: Option<SectionHeader<'a>>)
        ensures r is Some <==> has_sect(self.b(), n@), r is Some ==> (r->0).b() == self.b() && (r->0).n() == n@
    { unimplemented!() }
}
impl<'a> SectionHeader<'a> {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    pub uninterp spec fn n(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn address(&self) -> (r: u64)
        ensures r == sect_addr(self.b(), self.n())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_data(&self, e: &ElfFile<'a>) -> (r: &'a [u8])
        ensures e.b() == self.b() ==> r@ == sect_data(self.b(), self.n())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_data(&self, e: &ElfFile<'a>) -> (r: Result<SectionData<'a>, VxErr>)
        ensures
            syms(self.b(), self.n()) is Some ==> r is Ok && r->Ok_0 is SymbolTable32,
            r is Ok && r->Ok_0 is SymbolTable32 ==> syms(self.b(), self.n()) == Some(((r->Ok_0)->SymbolTable32_0)@),
    { unimplemented!() }
}
impl Entry {
    pub uninterp spec fn val(&self) -> u64;
    pub uninterp spec fn nm(&self) -> Option<VxStr>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: u64)
        ensures r == self.val()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_name<'a>(&self, e: &ElfFile<'a>) -> (r: Result<&'a VxStr, VxErr>)
        ensures r is Ok <==> self.nm() is Some, r is Ok ==> *(r->Ok_0) == self.nm()->0
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Function<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> Function<'a> {
    pub uninterp spec fn ns(&self) -> Seq<&'a VxStr>;
    pub uninterp spec fn sz(&self) -> u64;
    #[verifier::external_body]
    pub fn names(&self) -> (r: &Vec<&'a VxStr>)
        ensures r@ == self.ns()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64)
        ensures r == self.sz()
    { unimplemented!() }
}
pub struct Symbols<'a> { pub defined: VxMap<u64, Function<'a>> }
#[verifier::external_body]
pub fn vx_parse_u64(s: &VxStr) -> (r: Result<u64, VxErr>)
    ensures r is Ok <==> is_u64(s@)
{ unimplemented!() }
/// what u64::from_str_radix(.., 10) accepts
pub uninterp spec fn is_u64(s: Seq<char>) -> bool;
/// OUTLINED_FUNCTION_<number>
pub open spec fn outlined(n: VxStr) -> bool { starts(n@, "OUTLINED_FUNCTION_"@) && is_u64(n@.skip(18)) }
//@@insert is_outlined_function
// ------------------------------------------------------------------ mapping symbols
#[verifier::external_body]
pub fn vx_cmp(a: u32, b: u32) -> (r: core::cmp::Ordering)
    ensures r == order3(a as int, b as int)
{ unimplemented!() }
pub open spec fn order3(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub open spec fn order(a: (u32, Tag), b: (u32, Tag)) -> core::cmp::Ordering { order3(a.0 as int, b.0 as int) }
//@@insert code_order
pub open spec fn tag_of(e: Entry) -> Option<(u32, Tag)> {
    let a = word(e.val() as int) as u32;
    if e.nm() is Some && starts(e.nm()->0@, "$d"@) { Some((a, Tag::Data)) } else if e.nm() is Some && starts(e.nm()->0@, "$t"@) { Some((a, Tag::Thumb)) } else { None }
}
/// the mapping symbols among the symbols
pub open spec fn tags_of(es: Seq<Entry>) -> Seq<(u32, Tag)>
    decreases es.len()
{
    if es.len() == 0 { Seq::empty() } else { let t = tags_of(es.drop_last()); if tag_of(es.last()) is Some { t.push(tag_of(es.last())->0) } else { t } }
}
pub proof fn tags_start(es: Seq<Entry>)
    ensures tags_of(es.take(0)) == Seq::<(u32, Tag)>::empty()
{}
pub proof fn tags_step(es: Seq<Entry>, q: int)
    requires 0 <= q < es.len()
    ensures tags_of(es.take(q + 1)) == (if tag_of(es[q]) is Some { tags_of(es.take(q)).push(tag_of(es[q])->0) } else { tags_of(es.take(q)) })
{ assert(es.take(q + 1).drop_last() =~= es.take(q)); assert(es.take(q + 1).last() == es[q]); }
/// t: the mapping symbols s in the order of their addresses
pub open spec fn arranged(t: Seq<(u32, Tag)>, s: Seq<(u32, Tag)>) -> bool {
    t.to_multiset() == s.to_multiset() && forall|i: int, j: int| 0 <= i < j < t.len() ==> !(order(#[trigger] t[i], #[trigger] t[j]) is Greater)
}
/// slice::sort_by with the comparator code_order (whose contract is `ret == order(a, b)`)
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<(u32, Tag)>)
    ensures arranged(final(v)@, old(v)@)
{ unimplemented!() }
/// at most one mapping symbol per address
pub open spec fn strict(t: Seq<(u32, Tag)>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 < (#[trigger] t[j]).0 }
/// `tags.binary_search_by(|(a, _)| a.cmp(&x))`
#[verifier::external_body]
fn vx_bsearch(tags: &Vec<(u32, Tag)>, x: u32) -> (r: Result<usize, usize>)
    requires strict(tags@)
    ensures match r { Ok(k) => k < tags@.len() && tags@[k as int].0 == x, Err(_) => forall|k: int| 0 <= k < tags@.len() ==> (#[trigger] tags@[k]).0 != x },
{ unimplemented!() }
// ------------------------------------------------------------------ what the machine code says (thumb::analyze; C01-C04)
pub ghost struct Code { pub bls: Seq<i32>, pub bs: Seq<i32>, pub indirect: bool, pub sp: bool, pub stack: Option<u64> }
pub uninterp spec fn analysis(b: Seq<u8>, a: u32, v7: bool, t: Seq<(u32, Tag)>) -> Code;
pub uninterp spec fn well_formed(b: Seq<u8>, a: u32, v7: bool, t: Seq<(u32, Tag)>) -> bool;
pub mod thumb {
    use super::*;
    #[verifier::external_body]
    pub fn analyze(bytes: &[u8], address: u32, v7: bool, tags: &Vec<(u32, Tag)>) -> (r: (Vec<i32>, Vec<i32>, bool, bool, Option<u64>))
        requires may_stop() || well_formed(bytes@, address, v7, tags@)
        ensures (Code { bls: r.0@, bs: r.1@, indirect: r.2, sp: r.3, stack: r.4 }) == analysis(bytes@, address, v7, tags@)
    { unimplemented!() }
}
pub ghost struct Env<'a> { pub fm: IMap<u64, Function<'a>>, pub al: IMap<VxStr, &'a VxStr>, pub im: IMap<VxStr, NodeIndex>, pub an: IMap<u64, &'a VxStr>, pub asm: ISet<VxStr>, pub def: ISet<VxStr>, pub v7: bool, pub stext: int, pub text: Seq<u8>, pub tags: Seq<(u32, Tag)> }
pub open spec fn env<'a>(s: &Symbols<'a>, al: &VxMap<VxStr, &'a VxStr>, im: &VxMap<VxStr, NodeIndex>, an: &VxMap<u64, &'a VxStr>, asm: &VxSet<VxStr>, def: &VxSet<VxStr>, t: Target, b: Seq<u8>, tags: Seq<(u32, Tag)>) -> Env<'a>
{ Env { fm: s.defined.m(), al: al.m(), im: im.m(), an: an.m(), asm: asm.s(), def: def.s(), v7: t is Thumbv7m, stext: word(sect_addr(b, ".text"@) as int), text: sect_data(b, ".text"@), tags } }
pub open spec fn all(fm: IMap<u64, Function>) -> ISet<u64> { ISet::new(|a: u64| fm.contains_key(a)) }
/// the name and the node of the function at a
pub open spec fn name_of(E: Env, a: u64) -> VxStr { *E.al[*E.fm[a].ns()[0]] }
pub open spec fn caller_of(E: Env, a: u64) -> NodeIndex { E.im[name_of(E, a)] }
/// the function at a starts at mapping symbol i and ends at the next
pub open spec fn gap_at(t: Seq<(u32, Tag)>, a: int, i: int) -> bool { 0 <= i && i + 1 < t.len() && t[i].0 == a && t[i].1 is Thumb && t[i + 1].1 is Thumb }
pub open spec fn gap(t: Seq<(u32, Tag)>, a: int) -> int { if exists|i: int| #[trigger] gap_at(t, a, i) { let i = choose|i: int| #[trigger] gap_at(t, a, i); t[i + 1].0 - t[i].0 } else { 0 } }
pub proof fn gap_is(t: Seq<(u32, Tag)>, a: int, i: int)
    requires strict(t), 0 <= i < t.len(), t[i].0 == a
    ensures gap_at(t, a, i) ==> gap(t, a) == t[i + 1].0 - t[i].0 && t[i].0 < t[i + 1].0, !gap_at(t, a, i) ==> gap(t, a) == 0
{
    if exists|j: int| #[trigger] gap_at(t, a, j) { let j = choose|j: int| #[trigger] gap_at(t, a, j); if i < j { assert(t[i].0 < t[j].0); } if j < i { assert(t[j].0 < t[i].0); } }
}
pub proof fn forall_gap(t: Seq<(u32, Tag)>, a: int)
    requires strict(t)
    ensures
        forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == a ==> (gap_at(t, a, i) ==> gap(t, a) == t[i + 1].0 - t[i].0 && t[i].0 < t[i + 1].0) && (!gap_at(t, a, i) ==> gap(t, a) == 0),
        (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 != a) ==> gap(t, a) == 0,
{
    assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == a implies (gap_at(t, a, i) ==> gap(t, a) == t[i + 1].0 - t[i].0 && t[i].0 < t[i + 1].0) && (!gap_at(t, a, i) ==> gap(t, a) == 0) by { gap_is(t, a, i); }
}
pub open spec fn size_of(E: Env, a: u64) -> int { if E.fm[a].sz() != 0 { E.fm[a].sz() as int } else { gap(E.tags, a as int) } }
pub open spec fn code_of(E: Env, a: u64) -> Code { analysis(E.text.subrange(a - E.stext, a - E.stext + size_of(E, a)), a as u32, E.v7, E.tags) }
/// the function at address t is node y
pub open spec fn dest(E: Env, t: int, y: int) -> bool { 0 <= t <= u64::MAX && E.an.contains_key(t as u64) && E.im[*E.an[t as u64]].i() == y }
/// a branch from a that leaves the function
pub open spec fn out(E: Env, a: u64, o: i32) -> bool { !(0 <= o < size_of(E, a)) }
pub open spec fn tgt(E: Env, a: u64, y: int) -> bool {
    ||| exists|j: int| 0 <= j < code_of(E, a).bls.len() && dest(E, a + #[trigger] code_of(E, a).bls[j], y)
    ||| exists|j: int| 0 <= j < code_of(E, a).bs.len() && out(E, a, #[trigger] code_of(E, a).bs[j]) && dest(E, a + code_of(E, a).bs[j], y)
}
/// an indirect call nothing is known about
pub open spec fn wq(E: Env, a: u64) -> bool { !E.def.contains(name_of(E, a)) && code_of(E, a).indirect }
/// the frame of the function, given the recorded one
pub open spec fn fixed(E: Env, a: u64, l: Local) -> Local {
    let c = code_of(E, a);
    match l {
        Local::Exact(w) => match c.stack {
            Some(s) => if w != s && E.asm.contains(name_of(E, a)) { Local::Exact(s) } else if outlined(name_of(E, a)) && w == 0 { Local::Exact(s) } else { l },
            None => l,
        },
        Local::Unknown => match c.stack { Some(s) => Local::Exact(s), None => if c.sp { Local::Unknown } else { Local::Exact(0) } },
    }
}
/// the recorded frame and the machine code do not contradict each other in other ways
pub open spec fn agree(E: Env, a: u64, l: Local) -> bool {
    let c = code_of(E, a);
    &&& c.stack is Some ==> (c.stack->0 != 0) == c.sp
    &&& l is Exact && c.stack is Some && !E.asm.contains(name_of(E, a)) && !outlined(name_of(E, a)) ==> l->0 == c.stack->0
    &&& l is Exact ==> (fixed(E, a, l)->0 != 0) == c.sp
}
// ------------------------------------------------------------------ what holds before
/// names lead to nodes, different functions are different nodes (unit nodes, C20); addresses fit into 32 bits
pub open spec fn wide(E: Env, n0: Seq<Node>, k0: int) -> bool {
    &&& k0 == n0.len()
    &&& forall|a: u64| #[trigger] E.fm.contains_key(a) ==> placed_at(E, k0, a)
    &&& forall|a: u64, b: u64| #[trigger] E.fm.contains_key(a) && #[trigger] E.fm.contains_key(b) && caller_of(E, a) == caller_of(E, b) ==> a == b
    &&& forall|t: u64| #[trigger] E.an.contains_key(t) ==> t < 0x1_0000_0000 && E.im.contains_key(*E.an[t]) && E.im[*E.an[t]].i() < k0
}
pub open spec fn placed_at(E: Env, k0: int, a: u64) -> bool {
    &&& E.stext <= a && 0 <= size_of(E, a) && a + size_of(E, a) < 0x1_0000_0000 && E.fm[a].sz() < 0x1_0000_0000
    &&& E.fm[a].ns().len() > 0 && E.al.contains_key(*E.fm[a].ns()[0]) && E.im.contains_key(name_of(E, a)) && caller_of(E, a).i() < k0
    &&& forall|j: int| 0 <= j < code_of(E, a).bs.len() ==> 0 <= a + #[trigger] code_of(E, a).bs[j] < 0x1_0000_0000 && -0x8000_0000 <= signed(a as int) + code_of(E, a).bs[j] < 0x8000_0000
}
/// nothing the tool refuses
pub open spec fn fitting(E: Env, n0: Seq<Node>) -> bool { forall|a: u64| #[trigger] E.fm.contains_key(a) ==> fits(E, n0, a) }
pub open spec fn fits(E: Env, n0: Seq<Node>, a: u64) -> bool {
    &&& a - E.stext + size_of(E, a) <= E.text.len()
    &&& well_formed(E.text.subrange(a - E.stext, a - E.stext + size_of(E, a)), a as u32, E.v7, E.tags)
    &&& agree(E, a, n0[caller_of(E, a).i()].local)
    &&& forall|j: int| 0 <= j < code_of(E, a).bls.len() ==> known(E, a + #[trigger] code_of(E, a).bls[j])
    &&& forall|j: int| 0 <= j < code_of(E, a).bs.len() && out(E, a, #[trigger] code_of(E, a).bs[j]) ==> known(E, a + code_of(E, a).bs[j])
}
pub open spec fn known(E: Env, t: int) -> bool { 0 <= t <= u64::MAX && E.an.contains_key(t as u64) }
pub open spec fn with<'a>(E: Env<'a>, t: Seq<(u32, Tag)>) -> Env<'a> { Env { tags: t, ..E } }
pub open spec fn maps(b: Seq<u8>) -> Seq<(u32, Tag)> { tags_of(syms(b, ".symtab"@)->0) }
pub open spec fn ready(b: Seq<u8>, E: Env, g: DiGraph<Node, ()>, em: IMap<NodeIndex, VxSet<NodeIndex>>) -> bool {
    &&& g.wf() && simple(g.edges()) && seen_ok(em, g.nodes().len() as int, g.edges())
    &&& forall|t: Seq<(u32, Tag)>| #[trigger] arranged(t, maps(b)) ==> strict(t) && wide(with(E, t), g.nodes(), g.nodes().len() as int)
}
pub open spec fn consistent(b: Seq<u8>, E: Env, n0: Seq<Node>) -> bool {
    &&& has_sect(b, ".symtab"@) && syms(b, ".symtab"@) is Some
    &&& forall|t: Seq<(u32, Tag)>| #[trigger] arranged(t, maps(b)) ==> fitting(with(E, t), n0)
}
// ------------------------------------------------------------------ what holds afterwards
pub open spec fn own(E: Env, D: ISet<u64>, x: int, a: u64) -> bool { D.contains(a) && caller_of(E, a).i() == x }
pub open spec fn frames(E: Env, D: ISet<u64>, n0: Seq<Node>, n: Seq<Node>) -> bool {
    &&& n0.len() <= n.len()
    &&& forall|a: u64| #[trigger] D.contains(a) ==> n[caller_of(E, a).i()] == (Node { local: fixed(E, a, n0[caller_of(E, a).i()].local), ..n0[caller_of(E, a).i()] })
    &&& forall|i: int| 0 <= i < n0.len() && !(exists|a: u64| #[trigger] own(E, D, i, a)) ==> #[trigger] n[i] == n0[i]
}
pub open spec fn agreed(E: Env, D: ISet<u64>, n0: Seq<Node>) -> bool { forall|a: u64| #[trigger] D.contains(a) ==> agree(E, a, n0[caller_of(E, a).i()].local) }
pub open spec fn called(E: Env, D: ISet<u64>, x: int, y: int) -> bool { exists|a: u64| #[trigger] own(E, D, x, a) && tgt(E, a, y) }
pub open spec fn calls(E: Env, D: ISet<u64>, k0: int, e0: E2, e: E2) -> bool { forall|x: int, y: int| y < k0 ==> (#[trigger] ec(e, x, y) > 0 <==> ec(e0, x, y) > 0 || called(E, D, x, y)) }
pub open spec fn is_q(n: Node) -> bool { n.name == lit("?") && n.local is Unknown && n.max is None && !n.dashed }
pub open spec fn q_edge(E: Env, qp: IMap<u64, int>, x: int, y: int) -> bool { exists|a: u64| #[trigger] qp.contains_key(a) && caller_of(E, a).i() == x && qp[a] == y }
pub open spec fn q_node(qp: IMap<u64, int>, i: int) -> bool { exists|a: u64| #[trigger] qp.contains_key(a) && qp[a] == i }
pub open spec fn unknown(E: Env, D: ISet<u64>, k0: int, qp: IMap<u64, int>, n: Seq<Node>, e: E2) -> bool {
    &&& forall|a: u64| #[trigger] qp.contains_key(a) <==> D.contains(a) && wq(E, a)
    &&& forall|a: u64| #[trigger] qp.contains_key(a) ==> k0 <= qp[a] < n.len()
    &&& forall|a: u64, b: u64| #[trigger] qp.contains_key(a) && #[trigger] qp.contains_key(b) && qp[a] == qp[b] ==> a == b
    &&& forall|i: int| k0 <= i < n.len() ==> is_q(#[trigger] n[i]) && q_node(qp, i)
    &&& forall|x: int, y: int| y >= k0 ==> (#[trigger] ec(e, x, y) > 0 <==> q_edge(E, qp, x, y))
}
/// at most one edge per pair of nodes
pub open spec fn simple(e: E2) -> bool { forall|a: int, b: int| #[trigger] ec(e, a, b) <= 1 }
pub open spec fn done_at(E: Env, k0: int, qp: IMap<u64, int>, n0: Seq<Node>, e0: E2, n: Seq<Node>, e: E2) -> bool {
    frames(E, all(E.fm), n0, n) && agreed(E, all(E.fm), n0) && calls(E, all(E.fm), k0, e0, e) && unknown(E, all(E.fm), k0, qp, n, e) && simple(e)
}
pub open spec fn done_by(E: Env, t: Seq<(u32, Tag)>, k0: int, qp: IMap<u64, int>, g0: DiGraph<Node, ()>, g: DiGraph<Node, ()>) -> bool { done_at(with(E, t), k0, qp, g0.nodes(), g0.edges(), g.nodes(), g.edges()) }
pub open spec fn done(b: Seq<u8>, E: Env, g0: DiGraph<Node, ()>, g: DiGraph<Node, ()>) -> bool {
    g.wf() && exists|t: Seq<(u32, Tag)>, qp: IMap<u64, int>| arranged(t, maps(b)) && #[trigger] done_by(E, t, g0.nodes().len() as int, qp, g0, g)
}
// ------------------------------------------------------------------ the edges on record
pub open spec fn seen_ok(em: IMap<NodeIndex, VxSet<NodeIndex>>, k0: int, e: E2) -> bool {
    &&& forall|a: NodeIndex, x: NodeIndex| em.contains_key(a) && x.i() < k0 ==> (#[trigger] em[a].s().contains(x) <==> ec(e, a.i(), x.i()) > 0)
    &&& forall|a: NodeIndex, x: NodeIndex| !em.contains_key(a) && x.i() < k0 ==> #[trigger] ec(e, a.i(), x.i()) == 0
}
pub open spec fn seen(s: ISet<NodeIndex>, k0: int, e: E2, c: NodeIndex) -> bool { forall|x: NodeIndex| x.i() < k0 ==> (#[trigger] s.contains(x) <==> ec(e, c.i(), x.i()) > 0) }
/// e is e1 with the edges from c to T
pub open spec fn grown(e1: E2, e: E2, c: NodeIndex, k0: int, T: ISet<int>) -> bool {
    &&& forall|x: int, y: int| !(x == c.i() && y < k0) ==> #[trigger] ec(e, x, y) == ec(e1, x, y)
    &&& forall|y: int| y < k0 ==> (#[trigger] ec(e, c.i(), y) > 0 <==> ec(e1, c.i(), y) > 0 || T.contains(y))
}
pub open spec fn listed<'a>(fm: IMap<u64, Function<'a>>, ds: Seq<(&u64, &Function<'a>)>) -> bool {
    &&& forall|i: int| 0 <= i < ds.len() ==> fm.contains_key(*(#[trigger] ds[i]).0) && *ds[i].1 == fm[*ds[i].0]
    &&& forall|k: u64| #[trigger] fm.contains_key(k) ==> exists|i: int| 0 <= i < ds.len() && *(#[trigger] ds[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < ds.len() && 0 <= j < ds.len() && *(#[trigger] ds[i]).0 == *(#[trigger] ds[j]).0 ==> i == j
}
pub open spec fn among(ds: Seq<(&u64, &Function)>, k: int, a: u64) -> bool { exists|i: int| 0 <= i < k && *(#[trigger] ds[i]).0 == a }
pub proof fn at_step(fm: IMap<u64, Function>, ds: Seq<(&u64, &Function)>, k: int, D: ISet<u64>)
    requires listed(fm, ds), 0 <= k < ds.len(), forall|a: u64| #[trigger] D.contains(a) <==> among(ds, k, a)
    ensures forall|a: u64| #[trigger] D.insert(*ds[k].0).contains(a) <==> among(ds, k + 1, a), !D.contains(*ds[k].0), fm.contains_key(*ds[k].0), *ds[k].1 == fm[*ds[k].0]
{
    assert forall|a: u64| #[trigger] D.insert(*ds[k].0).contains(a) <==> among(ds, k + 1, a) by { if a == *ds[k].0 { assert(*(ds[k]).0 == a); } else if D.contains(a) { let i = choose|i: int| 0 <= i < k && *(#[trigger] ds[i]).0 == a; assert(i < k + 1); } }
}
//@@include code_lemmas.inc
//@@insert block_code
fn main() {}
}
