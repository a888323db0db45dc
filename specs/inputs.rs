// C01, C11, C19, C20: what the tool reads before it builds the graph
//@@spec Target_is_thumb
    ensures ret == (*self is Thumbv6m || *self is Thumbv7m),
//@@spec block_items
    ensures
        collected(defs(items@), defs(compiler_builtins_items@), ret.0.m()), //#C11 C20 every definition of both modules is known by its name; the application's own wins
        collected(decls(items@), decls(compiler_builtins_items@), ret.1.m()), //#C11 C20 so is every declaration
//@@proof block_items.0.before
    let ghost cb = compiler_builtins_items@;
    let ghost mut k = 0int;
//@@inv block_items.0
    invariant
        0 <= k <= cb.len(), vx_it_L0.rest() =~= cb.skip(k), cb == compiler_builtins_items@,
        collected(ISet::empty(), firstd(cb, k), defines.m()), //#C11 C20 the definitions so far
        collected(ISet::empty(), firstc(cb, k), declares.m()), //#C11 C20 the declarations so far
    ensures
        k == cb.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_items.0.top
    let ghost (df0, dc0) = (defines.m(), declares.m());
    proof { if k < cb.len() { assert(cb.skip(k)[0] == cb[k]); assert(cb.skip(k).drop_first() =~= cb.skip(k + 1)); first_step(cb, k); k = k + 1; } }
//@@proof block_items.0.end
    proof { let v = cb[k - 1]; if v is Define { add_other(firstd(cb, k - 1), df0, v->Define_0); } if v is Declare { add_other(firstc(cb, k - 1), dc0, v->Declare_0); } }
//@@proof block_items.1.before
    let ghost own = items@;
    let ghost mut k = 0int;
    proof { all_first(compiler_builtins_items@); none_first(own); }
//@@inv block_items.1
    invariant
        0 <= k <= own.len(), vx_it_L1.rest() =~= own.skip(k), own == items@,
        collected(firstd(own, k), defs(compiler_builtins_items@), defines.m()), //#C11 C20 the application's own definitions replace those of compiler_builtins
        collected(firstc(own, k), decls(compiler_builtins_items@), declares.m()), //#C11 C20 the application's own declarations replace those of compiler_builtins
    ensures
        k == own.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_items.1.top
    let ghost (df0, dc0) = (defines.m(), declares.m());
    proof { if k < own.len() { assert(own.skip(k)[0] == own[k]); assert(own.skip(k).drop_first() =~= own.skip(k + 1)); first_step(own, k); k = k + 1; } }
//@@proof block_items.1.end
    proof { let v = own[k - 1]; if v is Define { add_own(firstd(own, k - 1), defs(compiler_builtins_items@), df0, v->Define_0); } if v is Declare { add_own(firstc(own, k - 1), decls(compiler_builtins_items@), dc0, v->Declare_0); } }
//@@proof block_items.1.after
    proof { all_first(items@); }
//@@spec block_target
    ensures ret == target_of(target@), //#C01 C18 which targets the machine code is read for
//@@proof block_target.entry
    proof { reveal_strlit("thumbv6m-none-eabi"); reveal_strlit("thumbv7m-none-eabi"); reveal_strlit("thumbv7em-none-eabi"); reveal_strlit("thumbv7em-none-eabihf"); assert("thumbv6m-none-eabi"@[6] != "thumbv7m-none-eabi"@[6] && "thumbv6m-none-eabi"@[6] != "thumbv7em-none-eabi"@[6] && "thumbv6m-none-eabi"@[6] != "thumbv7em-none-eabihf"@[6]); }
//@@spec block_sizes
    ensures
        ret is Err ==> unreadable(obj@, compiler_builtins_rlib_path@), //#C19 only unreadable files are an error
        ret is Ok ==> recorded(obj@, compiler_builtins_rlib_path@, (ret->Ok_0).m()), //#C19 the recorded frames: the application's own, else those of compiler_builtins
//@@proof block_sizes.0.before
    let ghost F = frames(obj@)->0;
    let ghost ls = vx_it_L0.rest();
    let ghost mut k = 0int;
//@@inv block_sizes.0
    invariant
        0 <= k <= ls.len(), vx_it_L0.rest() =~= ls.skip(k), listed(F, ls),
        forall|n: VxStr| #[trigger] vx_v_L0.m().contains_key(n) <==> among(ls, k, n), //#C19 the frames so far
        forall|n: VxStr| #[trigger] vx_v_L0.m().contains_key(n) ==> vx_v_L0.m()[n] == F[n], //#C19 each with its size
    ensures
        k == ls.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_sizes.0.top
    proof { if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); among_step(ls, k); k = k + 1; } }
//@@proof block_sizes.0.after
    proof { all_listed(F, ls); assert(vx_v_L0.m() =~= F); }
//@@proof block_sizes.1.before
    let ghost F = frames(obj@)->0;
    let ghost es = ar.rest();
    let ghost mut k = 0int;
    proof { assert(stack_sizes.m() == F); }
//@@inv block_sizes.1
    invariant
        0 <= k <= es.len(), ar.rest() =~= es.skip(k), opened(compiler_builtins_rlib_path@) == Some(es),
        merged(F, es, k, stack_sizes.m()), //#C19 the application's own frames stay
    ensures
        k == es.len(),
    decreases ar.rest().len(),
//@@proof block_sizes.1.top
    let ghost s0 = stack_sizes.m();
    let ghost k0 = k;
    proof { if k < es.len() { assert(es.skip(k)[0] == es[k]); assert((opened(compiler_builtins_rlib_path@)->0)[k] == es[k]); assert(es.skip(k).drop_first() =~= es.skip(k + 1)); k = k + 1; } reveal_strlit("compiler_builtins"); reveal_strlit(".o"); }
//@@proof block_sizes.2.before
    let ghost M = frames(buf@)->0;
    let ghost ls = vx_it_L2.rest();
    let ghost mut q = 0int;
    proof { assert(member(es[k0]) == Some(M)); }
//@@inv block_sizes.2
    invariant
        0 <= q <= ls.len(), vx_it_L2.rest() =~= ls.skip(q), listed(M, ls),
        forall|n: VxStr| #[trigger] stack_sizes.m().contains_key(n) <==> s0.contains_key(n) || among(ls, q, n), //#C19 the frames of the member so far
        forall|n: VxStr| #[trigger] stack_sizes.m().contains_key(n) ==> stack_sizes.m()[n] == (if s0.contains_key(n) { s0[n] } else { M[n] }), //#C19 what is known stays
    ensures
        q == ls.len(),
    decreases vx_it_L2.rest().len(),
//@@proof block_sizes.2.top
    proof { if q < ls.len() { assert(ls.skip(q)[0] == ls[q]); assert(ls.skip(q).drop_first() =~= ls.skip(q + 1)); among_step(ls, q); q = q + 1; } }
//@@proof block_sizes.2.after
    proof { all_listed(M, ls); }
//@@proof block_sizes.1.end
    proof { merge_step(F, es, k0, s0, stack_sizes.m()); }
//@@spec block_symbols
    requires
        exe(elf@) is Some ==> apart((exe(elf@)->0).0) && versioned((exe(elf@)->0).1),
    ensures
        ret is Err ==> exe(elf@) is None, //#C01 C20 only an unreadable program is an error
        ret is Ok ==> exe(elf@) is Some && addresses(target_ is Thumbv6m || target_ is Thumbv7m, (exe(elf@)->0).0, (ret->Ok_0).defined.m()), //#C01 C20 every function at its address, without the Thumb bit
        ret is Ok ==> stripped((exe(elf@)->0).1, (ret->Ok_0).undefined.s()), //#C11 C20 every undefined symbol without its version
//@@proof block_symbols.0.before
    let ghost F = (exe(elf@)->0).0;
    let ghost ls = vx_it_L0.rest();
    let ghost mut k = 0int;
//@@inv block_symbols.0
    invariant
        0 <= k <= ls.len(), vx_it_L0.rest() =~= ls.skip(k), listed(F, ls), apart(F),
        forall|a: u64| #[trigger] vx_v_L0.m().contains_key(a) <==> even_among(ls, k, a), //#C01 C20 the functions so far
        forall|i: int| 0 <= i < k ==> vx_v_L0.m().contains_key(even((#[trigger] ls[i]).0)) && vx_v_L0.m()[even(ls[i].0)] == ls[i].1, //#C01 C20 each at its own address
    ensures
        k == ls.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_symbols.0.top
    let ghost m0 = vx_v_L0.m();
    proof { if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); even_step(F, ls, k); k = k + 1; } }
//@@proof block_symbols.0.after
    proof { all_even(F, ls, vx_v_L0.m()); }
//@@proof block_symbols.1.before
    let ghost U = (exe(elf@)->0).1;
    let ghost ls = vx_it_L1.rest();
    let ghost mut k = 0int;
//@@inv block_symbols.1
    invariant
        0 <= k <= ls.len(), vx_it_L1.rest() =~= ls.skip(k), every(U, ls), versioned(U),
        forall|n: VxStr| #[trigger] vx_v_L1.s().contains(n) <==> named_by(ls, k, n), //#C11 C20 the undefined symbols so far
    ensures
        k == ls.len(),
    decreases vx_it_L1.rest().len(),
//@@proof block_symbols.1.top
    let ghost u0 = vx_v_L1.s();
    proof { if k < ls.len() { assert(ls.skip(k)[0] == ls[k]); assert(ls.skip(k).drop_first() =~= ls.skip(k + 1)); named_step(U, ls, k); k = k + 1; } reveal_strlit("@@"); }
//@@proof block_symbols.1.after
    proof { all_named(U, ls, vx_v_L1.s()); }
//@@code
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
//@@include strs.inc
//@@include iter0.inc
//@@include maps.inc
pub struct VxErr {}
#[verifier::external_body]
pub fn vx_err() -> (r: VxErr) { unimplemented!() }
//@@insert Target
//@@insert Type
//@@insert FnSig
//@@insert Define
//@@insert Stmt
//@@insert Declare
//@@insert Item
impl Target {
//@@insert Target_is_thumb
}
/// std::collections::{HashSet, BTreeSet}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxSet<K> { x: Option<K> }
impl<K> VxSet<K> {
    pub uninterp spec fn s(&self) -> ISet<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.s() == ISet::<K>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<Q: VxBorrow<K>>(&mut self, k: Q) -> (r: bool)
        ensures final(self).s() == old(self).s().insert(k.vx_key()), r == !old(self).s().contains(k.vx_key())
    { unimplemented!() }
}
impl VxSet<VxStr> {
    /// every element once, in some order
    #[verifier::external_body]
    pub fn vx_into_it<'a>(self) -> (r: VxIter<&'a VxStr>)
        ensures every(self.s(), r.rest())
    { unimplemented!() }
}
impl<K, V> VxMap<K, V> {
    /// every key once, with its value, in some order
    #[verifier::external_body]
    pub fn vx_into_it(self) -> (r: VxIter<(K, V)>)
        ensures listed(self.m(), r.rest())
    { unimplemented!() }
}
impl<T> VxItInto<T> for Vec<T> {
    open spec fn vx_into_items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_it(self) -> (r: VxIter<T>) { unimplemented!() }
}
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures r is Some <==> n < old(self).rest().len(), r is Some ==> r->0 == old(self).rest()[n as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures r is Some <==> self.rest().len() > 0, r is Some ==> r->0 == self.rest().last()
    { unimplemented!() }
}
pub open spec fn every(s: ISet<VxStr>, ls: Seq<&VxStr>) -> bool {
    &&& forall|i: int| 0 <= i < ls.len() ==> s.contains(*(#[trigger] ls[i]))
    &&& forall|k: VxStr| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < ls.len() && *(#[trigger] ls[i]) == k
}
pub open spec fn listed<K, V>(m: IMap<K, V>, ls: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < ls.len() ==> m.contains_key((#[trigger] ls[i]).0) && ls[i].1 == m[ls[i].0]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() && (#[trigger] ls[i]).0 == (#[trigger] ls[j]).0 ==> i == j
}
pub open spec fn among<K, V>(ls: Seq<(K, V)>, k: int, n: K) -> bool { exists|i: int| 0 <= i < k && (#[trigger] ls[i]).0 == n }
pub proof fn among_step<K, V>(ls: Seq<(K, V)>, k: int)
    requires 0 <= k < ls.len()
    ensures forall|n: K| #[trigger] among(ls, k + 1, n) <==> among(ls, k, n) || n == ls[k].0
{ assert forall|n: K| #[trigger] among(ls, k + 1, n) <==> among(ls, k, n) || n == ls[k].0 by { if n == ls[k].0 { assert(ls[k].0 == n); } } }
pub proof fn all_listed<K, V>(m: IMap<K, V>, ls: Seq<(K, V)>)
    requires listed(m, ls)
    ensures forall|n: K| #[trigger] among(ls, ls.len() as int, n) <==> m.contains_key(n)
{ assert forall|n: K| #[trigger] among(ls, ls.len() as int, n) <==> m.contains_key(n) by { if m.contains_key(n) { let i = choose|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).0 == n; assert(ls[i].0 == n); } } }
// ------------------------------------------------------------------ items
pub open spec fn defs<'a>(v: Seq<Item<'a>>) -> ISet<Define<'a>> { ISet::new(|d: Define<'a>| v.contains(Item::Define(d))) }
pub open spec fn decls<'a>(v: Seq<Item<'a>>) -> ISet<Declare<'a>> { ISet::new(|d: Declare<'a>| v.contains(Item::Declare(d))) }
pub open spec fn is_firstd<'a>(v: Seq<Item<'a>>, k: int, d: Define<'a>) -> bool { exists|i: int| 0 <= i < k && #[trigger] v[i] == Item::Define(d) }
pub open spec fn is_firstc<'a>(v: Seq<Item<'a>>, k: int, d: Declare<'a>) -> bool { exists|i: int| 0 <= i < k && #[trigger] v[i] == Item::Declare(d) }
pub open spec fn firstd<'a>(v: Seq<Item<'a>>, k: int) -> ISet<Define<'a>> { ISet::new(|d: Define<'a>| is_firstd(v, k, d)) }
pub open spec fn firstc<'a>(v: Seq<Item<'a>>, k: int) -> ISet<Declare<'a>> { ISet::new(|d: Declare<'a>| is_firstc(v, k, d)) }
pub proof fn first_step<'a>(v: Seq<Item<'a>>, k: int)
    requires 0 <= k < v.len()
    ensures
        firstd(v, k + 1) == (if v[k] is Define { firstd(v, k).insert(v[k]->Define_0) } else { firstd(v, k) }),
        firstc(v, k + 1) == (if v[k] is Declare { firstc(v, k).insert(v[k]->Declare_0) } else { firstc(v, k) }),
{
    assert forall|d: Define<'a>| is_firstd(v, k + 1, d) <==> is_firstd(v, k, d) || v[k] == Item::Define(d) by { if v[k] == Item::Define(d) { assert(v[k] == Item::Define(d)); } }
    assert forall|d: Declare<'a>| is_firstc(v, k + 1, d) <==> is_firstc(v, k, d) || v[k] == Item::Declare(d) by { if v[k] == Item::Declare(d) { assert(v[k] == Item::Declare(d)); } }
    assert(firstd(v, k + 1) =~= (if v[k] is Define { firstd(v, k).insert(v[k]->Define_0) } else { firstd(v, k) }));
    assert(firstc(v, k + 1) =~= (if v[k] is Declare { firstc(v, k).insert(v[k]->Declare_0) } else { firstc(v, k) }));
}
pub trait HasName { spec fn nm(self) -> VxStr; }
impl<'a> HasName for Define<'a> { open spec fn nm(self) -> VxStr { *self.name } }
impl<'a> HasName for Declare<'a> { open spec fn nm(self) -> VxStr { *self.name } }
pub open spec fn has<T: HasName>(s: ISet<T>, n: VxStr) -> bool { exists|d: T| #[trigger] s.contains(d) && d.nm() == n }
/// every name of one of a or b leads to what it names, in a if possible
pub open spec fn collected<T: HasName>(a: ISet<T>, b: ISet<T>, m: IMap<VxStr, T>) -> bool {
    &&& forall|n: VxStr| #[trigger] m.contains_key(n) <==> has(a, n) || has(b, n)
    &&& forall|n: VxStr| #[trigger] m.contains_key(n) ==> m[n].nm() == n && (if has(a, n) { a.contains(m[n]) } else { b.contains(m[n]) })
}
pub proof fn all_first<'a>(v: Seq<Item<'a>>)
    ensures firstd(v, v.len() as int) == defs(v), firstc(v, v.len() as int) == decls(v)
{
    assert(firstd(v, v.len() as int) =~= defs(v)) by { assert forall|d: Define<'a>| is_firstd(v, v.len() as int, d) <==> v.contains(Item::Define(d)) by { } }
    assert(firstc(v, v.len() as int) =~= decls(v)) by { assert forall|d: Declare<'a>| is_firstc(v, v.len() as int, d) <==> v.contains(Item::Declare(d)) by { } }
}
pub proof fn none_first<'a>(v: Seq<Item<'a>>)
    ensures firstd(v, 0) == ISet::<Define<'a>>::empty(), firstc(v, 0) == ISet::<Declare<'a>>::empty()
{ assert(firstd(v, 0) =~= ISet::<Define<'a>>::empty()); assert(firstc(v, 0) =~= ISet::<Declare<'a>>::empty()); }
pub proof fn has_step<T: HasName>(a: ISet<T>, d: T)
    ensures forall|n: VxStr| #[trigger] has(a.insert(d), n) <==> has(a, n) || n == d.nm()
{
    assert forall|n: VxStr| #[trigger] has(a.insert(d), n) <==> has(a, n) || n == d.nm() by {
        if n == d.nm() { assert(a.insert(d).contains(d)); }
        if has(a, n) { let e = choose|e: T| #[trigger] a.contains(e) && e.nm() == n; assert(a.insert(d).contains(e)); }
    }
}
pub proof fn add_own<T: HasName>(a: ISet<T>, b: ISet<T>, m: IMap<VxStr, T>, d: T)
    requires collected(a, b, m)
    ensures collected(a.insert(d), b, m.insert(d.nm(), d))
{ has_step(a, d); }
pub proof fn add_other<T: HasName>(b: ISet<T>, m: IMap<VxStr, T>, d: T)
    requires collected(ISet::empty(), b, m)
    ensures collected(ISet::empty(), b.insert(d), m.insert(d.nm(), d))
{ has_step(b, d); }
// ------------------------------------------------------------------ the target
pub open spec fn target_of(t: Seq<char>) -> Target {
    if t == "thumbv6m-none-eabi"@ { Target::Thumbv6m }
    else if t == "thumbv7m-none-eabi"@ || t == "thumbv7em-none-eabi"@ || t == "thumbv7em-none-eabihf"@ { Target::Thumbv7m }
    else { Target::Other }
}
// ------------------------------------------------------------------ recorded frames
/// what stack_sizes::analyze_object makes of a file
pub uninterp spec fn frames(b: Seq<u8>) -> Option<IMap<VxStr, u64>>;
#[verifier::external_body]
pub fn vx_analyze_object(b: &Vec<u8>) -> (r: Result<VxMap<VxStr, u64>, VxErr>)
    ensures r is Ok <==> frames(b@) is Some, r is Ok ==> (r->Ok_0).m() == frames(b@)->0
{ unimplemented!() }
/// the members of an archive
pub uninterp spec fn opened(path: Seq<char>) -> Option<Seq<Result<Entry, VxErr>>>;
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn c(&self) -> Seq<Result<Entry, VxErr>>;
    #[verifier::external_body]
    pub fn open(path: &VxStr) -> (r: Result<File, VxErr>)
        ensures r is Ok <==> opened(path@) is Some, r is Ok ==> (r->Ok_0).c() == opened(path@)->0
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Archive { x: u8 }
impl Archive {
    pub uninterp spec fn rest(&self) -> Seq<Result<Entry, VxErr>>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: Archive)
        ensures r.rest() == f.c()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_entry(&mut self) -> (r: Option<Result<Entry, VxErr>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Entry { x: u8 }
#[verifier::external_body]
pub struct Header { x: u8 }
impl Header {
    pub uninterp spec fn id(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn identifier(&self) -> (r: &[u8])
        ensures r@ == self.id()
    { unimplemented!() }
}
impl Entry {
    pub uninterp spec fn id(&self) -> Seq<u8>;
    /// what can be read of it
    pub uninterp spec fn data(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn header(&self) -> (r: &Header)
        ensures r.id() == self.id()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, VxErr>)
        ensures r is Ok <==> old(self).data() is Some, r is Ok ==> final(buf)@ == old(buf)@ + old(self).data()->0, r is Ok && old(buf)@.len() == 0 ==> final(buf)@ == old(self).data()->0
    { unimplemented!() }
}
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&VxStr, VxErr>)
    ensures r is Ok <==> utf8(b@) is Some, r is Ok ==> (r->Ok_0)@ == utf8(b@)->0
{ unimplemented!() }
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn contains(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| #[trigger] at(s, p, i) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
/// p is in s in one place only
pub open spec fn once(s: Seq<char>, p: Seq<char>) -> bool { contains(s, p) && forall|i: int, j: int| #[trigger] at(s, p, i) && #[trigger] at(s, p, j) ==> i == j }
pub open spec fn place(s: Seq<char>, p: Seq<char>) -> int { choose|i: int| #[trigger] at(s, p, i) }
pub open spec fn left(s: Seq<char>, p: Seq<char>) -> Seq<char> { s.take(place(s, p)) }
pub open spec fn right(s: Seq<char>, p: Seq<char>) -> Seq<char> { s.skip(place(s, p) + p.len()) }
impl VxStr {
    #[verifier::external_body]
    pub fn contains(&self, p: &VxStr) -> (r: bool)
        ensures r == contains(self@, p@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, p: &VxStr) -> (r: bool)
        ensures r == ends(self@, p@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rsplit(&self, p: &VxStr) -> (r: VxIter<&VxStr>)
        ensures
            !contains(self@, p@) ==> r.rest().len() == 1 && *r.rest()[0] == *self,
            once(self@, p@) ==> r.rest().len() == 2 && r.rest()[0]@ == right(self@, p@) && r.rest()[1]@ == left(self@, p@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, p: &VxStr) -> (r: VxIter<&VxStr>)
        ensures
            !contains(self@, p@) ==> r.rest().len() == 1 && *r.rest()[0] == *self,
            once(self@, p@) ==> r.rest().len() == 2 && r.rest()[0]@ == left(self@, p@) && r.rest()[1]@ == right(self@, p@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_once(&self, p: &VxStr) -> (r: Option<(&VxStr, &VxStr)>)
        ensures r is Some <==> contains(self@, p@), once(self@, p@) ==> (r->0).0@ == left(self@, p@) && (r->0).1@ == right(self@, p@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rsplit_once(&self, p: &VxStr) -> (r: Option<(&VxStr, &VxStr)>)
        ensures r is Some <==> contains(self@, p@), once(self@, p@) ==> (r->0).0@ == left(self@, p@) && (r->0).1@ == right(self@, p@)
    { unimplemented!() }
}
/// object files of compiler_builtins
pub open spec fn is_cb(id: Seq<u8>) -> bool { utf8(id) is Some && contains(utf8(id)->0, "compiler_builtins"@) && ends(utf8(id)->0, ".o"@) }
/// the frames an archive member of compiler_builtins records
pub open spec fn member(r: Result<Entry, VxErr>) -> Option<IMap<VxStr, u64>> {
    match r { Ok(e) => if is_cb(e.id()) && e.data() is Some { frames(e.data()->0) } else { None }, Err(_) => None }
}
pub open spec fn damaged(r: Result<Entry, VxErr>) -> bool {
    match r { Ok(e) => is_cb(e.id()) && (e.data() is None || frames(e.data()->0) is None), Err(_) => true }
}
pub open spec fn unreadable(obj: Seq<u8>, path: Seq<char>) -> bool {
    frames(obj) is None || opened(path) is None || exists|i: int| 0 <= i < (opened(path)->0).len() && damaged(#[trigger] (opened(path)->0)[i])
}
pub open spec fn in_member(es: Seq<Result<Entry, VxErr>>, k: int, n: VxStr) -> bool { exists|i: int| 0 <= i < k && member(#[trigger] es[i]) is Some && (member(es[i])->0).contains_key(n) }
pub open spec fn of_member(es: Seq<Result<Entry, VxErr>>, k: int, n: VxStr, v: u64) -> bool { exists|i: int| 0 <= i < k && member(#[trigger] es[i]) is Some && (member(es[i])->0).contains_key(n) && (member(es[i])->0)[n] == v }
/// own frames, then those of the first k members
pub open spec fn merged(own: IMap<VxStr, u64>, es: Seq<Result<Entry, VxErr>>, k: int, m: IMap<VxStr, u64>) -> bool {
    &&& forall|n: VxStr| #[trigger] m.contains_key(n) <==> own.contains_key(n) || in_member(es, k, n)
    &&& forall|n: VxStr| #[trigger] m.contains_key(n) ==> if own.contains_key(n) { m[n] == own[n] } else { of_member(es, k, n, m[n]) }
}
pub open spec fn recorded(obj: Seq<u8>, path: Seq<char>, m: IMap<VxStr, u64>) -> bool {
    frames(obj) is Some && opened(path) is Some && merged(frames(obj)->0, opened(path)->0, (opened(path)->0).len() as int, m)
}
pub proof fn merge_step(own: IMap<VxStr, u64>, es: Seq<Result<Entry, VxErr>>, k: int, s0: IMap<VxStr, u64>, s: IMap<VxStr, u64>)
    requires
        0 <= k < es.len(), merged(own, es, k, s0),
        member(es[k]) is None ==> s == s0,
        member(es[k]) is Some ==> forall|n: VxStr| #[trigger] s.contains_key(n) <==> s0.contains_key(n) || (member(es[k])->0).contains_key(n),
        member(es[k]) is Some ==> forall|n: VxStr| #[trigger] s.contains_key(n) ==> s[n] == (if s0.contains_key(n) { s0[n] } else { (member(es[k])->0)[n] }),
    ensures merged(own, es, k + 1, s)
{
    assert forall|n: VxStr| #[trigger] in_member(es, k + 1, n) <==> in_member(es, k, n) || (member(es[k]) is Some && (member(es[k])->0).contains_key(n)) by {
        if member(es[k]) is Some && (member(es[k])->0).contains_key(n) { assert(member(es[k]) is Some); }
    }
    assert forall|n: VxStr| #[trigger] s.contains_key(n) <==> own.contains_key(n) || in_member(es, k + 1, n) by { assert(s0.contains_key(n) <==> own.contains_key(n) || in_member(es, k, n)); }
    assert forall|n: VxStr| #[trigger] s.contains_key(n) implies if own.contains_key(n) { s[n] == own[n] } else { of_member(es, k + 1, n, s[n]) } by {
        assert(s0.contains_key(n) <==> own.contains_key(n) || in_member(es, k, n));
        if !own.contains_key(n) {
            if s0.contains_key(n) { let i = choose|i: int| 0 <= i < k && member(#[trigger] es[i]) is Some && (member(es[i])->0).contains_key(n) && (member(es[i])->0)[n] == s0[n]; assert(member(es[i]) is Some); assert(i < k + 1); }
            else { assert(member(es[k]) is Some); }
        }
    }
}
// ------------------------------------------------------------------ symbols
#[verifier::external_body]
pub struct Function<'a> { x: core::marker::PhantomData<&'a u8> }
pub struct Symbols<'a> { pub defined: VxMap<u64, Function<'a>>, pub undefined: VxSet<VxStr> }
/// what stack_sizes::analyze_executable makes of a file: the functions by address, the undefined symbols
pub uninterp spec fn exe<'a>(b: Seq<u8>) -> Option<(IMap<u64, Function<'a>>, ISet<VxStr>)>;
#[verifier::external_body]
pub fn vx_analyze_executable<'a>(b: &Vec<u8>) -> (r: Result<Symbols<'a>, VxErr>)
    ensures r is Ok <==> exe::<'a>(b@) is Some, r is Ok ==> (r->Ok_0).defined.m() == (exe::<'a>(b@)->0).0 && (r->Ok_0).undefined.s() == (exe::<'a>(b@)->0).1
{ unimplemented!() }
pub open spec fn even(a: u64) -> u64 { a & !1u64 }
/// no two functions at addresses that differ in the Thumb bit only
pub open spec fn apart<V>(m: IMap<u64, V>) -> bool { forall|a: u64, b: u64| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && even(a) == even(b) ==> a == b }
pub open spec fn even_of<V>(m: IMap<u64, V>, e: u64) -> bool { exists|a: u64| #[trigger] m.contains_key(a) && even(a) == e }
/// the same functions, for Thumb without the Thumb bit
pub open spec fn addresses<V>(thumb: bool, m: IMap<u64, V>, r: IMap<u64, V>) -> bool {
    if thumb {
        &&& forall|e: u64| #[trigger] r.contains_key(e) <==> even_of(m, e)
        &&& forall|a: u64| #[trigger] m.contains_key(a) ==> r[even(a)] == m[a]
    } else { r == m }
}
pub open spec fn even_among<V>(ls: Seq<(u64, V)>, k: int, e: u64) -> bool { exists|i: int| 0 <= i < k && even((#[trigger] ls[i]).0) == e }
pub proof fn even_step<V>(m: IMap<u64, V>, ls: Seq<(u64, V)>, k: int)
    requires 0 <= k < ls.len(), listed(m, ls), apart(m)
    ensures
        forall|e: u64| #[trigger] even_among(ls, k + 1, e) <==> even_among(ls, k, e) || e == even(ls[k].0),
        forall|i: int| 0 <= i < k ==> even((#[trigger] ls[i]).0) != even(ls[k].0),
{
    assert forall|e: u64| #[trigger] even_among(ls, k + 1, e) <==> even_among(ls, k, e) || e == even(ls[k].0) by { if e == even(ls[k].0) { assert(even(ls[k].0) == e); } }
    assert forall|i: int| 0 <= i < k implies even((#[trigger] ls[i]).0) != even(ls[k].0) by { assert(m.contains_key(ls[i].0) && m.contains_key(ls[k].0)); }
}
pub proof fn all_even<V>(m: IMap<u64, V>, ls: Seq<(u64, V)>, r: IMap<u64, V>)
    requires
        listed(m, ls), forall|e: u64| #[trigger] r.contains_key(e) <==> even_among(ls, ls.len() as int, e),
        forall|i: int| 0 <= i < ls.len() ==> r.contains_key(even((#[trigger] ls[i]).0)) && r[even(ls[i].0)] == ls[i].1,
    ensures addresses(true, m, r)
{
    assert forall|e: u64| #[trigger] r.contains_key(e) <==> even_of(m, e) by {
        if even_among(ls, ls.len() as int, e) { let i = choose|i: int| 0 <= i < ls.len() && even((#[trigger] ls[i]).0) == e; assert(m.contains_key(ls[i].0)); }
        if even_of(m, e) { let a = choose|a: u64| #[trigger] m.contains_key(a) && even(a) == e; let i = choose|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).0 == a; assert(even(ls[i].0) == e); }
    }
    assert forall|a: u64| #[trigger] m.contains_key(a) implies r[even(a)] == m[a] by { let i = choose|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).0 == a; assert(m.contains_key(ls[i].0)); }
}
/// at most one version
pub open spec fn versioned(u: ISet<VxStr>) -> bool { forall|n: VxStr| #[trigger] u.contains(n) ==> !contains(n@, "@@"@) || once(n@, "@@"@) }
/// `name@@VERSION` -> `name`
pub open spec fn strip(n: VxStr) -> Seq<char> { if contains(n@, "@@"@) { left(n@, "@@"@) } else { n@ } }
pub open spec fn strip_of(u: ISet<VxStr>, n: VxStr) -> bool { exists|s: VxStr| #[trigger] u.contains(s) && strip(s) == n@ }
pub open spec fn stripped(u: ISet<VxStr>, r: ISet<VxStr>) -> bool { forall|n: VxStr| #[trigger] r.contains(n) <==> strip_of(u, n) }
pub open spec fn named_by(ls: Seq<&VxStr>, k: int, n: VxStr) -> bool { exists|i: int| 0 <= i < k && strip(*(#[trigger] ls[i])) == n@ }
pub proof fn named_step(u: ISet<VxStr>, ls: Seq<&VxStr>, k: int)
    requires 0 <= k < ls.len(), every(u, ls), versioned(u)
    ensures
        forall|n: VxStr| #[trigger] named_by(ls, k + 1, n) <==> named_by(ls, k, n) || n@ == strip(*ls[k]),
        !contains(ls[k]@, "@@"@) || once(ls[k]@, "@@"@),
{
    assert(u.contains(*ls[k]));
    assert forall|n: VxStr| #[trigger] named_by(ls, k + 1, n) <==> named_by(ls, k, n) || n@ == strip(*ls[k]) by { if n@ == strip(*ls[k]) { assert(strip(*ls[k]) == n@); } }
}
pub proof fn all_named(u: ISet<VxStr>, ls: Seq<&VxStr>, r: ISet<VxStr>)
    requires every(u, ls), forall|n: VxStr| #[trigger] r.contains(n) <==> named_by(ls, ls.len() as int, n)
    ensures stripped(u, r)
{
    assert forall|n: VxStr| #[trigger] r.contains(n) <==> strip_of(u, n) by {
        if named_by(ls, ls.len() as int, n) { let i = choose|i: int| 0 <= i < ls.len() && strip(*(#[trigger] ls[i])) == n@; assert(u.contains(*ls[i])); }
        if strip_of(u, n) { let s = choose|s: VxStr| #[trigger] u.contains(s) && strip(s) == n@; let i = choose|i: int| 0 <= i < ls.len() && *(#[trigger] ls[i]) == s; assert(strip(*ls[i]) == n@); }
    }
}
//@@insert block_items
//@@insert block_target
//@@insert block_sizes
//@@insert block_symbols
fn main() {}
}
