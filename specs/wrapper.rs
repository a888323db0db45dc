//@@spec parse
    ensures
        ret is Ok ==> pargs(vw(old(args).rest()), p0()) is Some && pargs(vw(old(args).rest()), p0())->0.is(&ret->Ok_0), //#C16 the options are read as rustc reads them
        ret is Err ==> pargs(vw(old(args).rest()), p0()) is None || pargs(vw(old(args).rest()), p0())->0.krate is None, //#C16 only an incomplete command line is refused
//@@proof parse.entry
    let ghost a0 = vw(args.rest());
    let ghost mut cur = p0();
//@@inv parse.0
    invariant
        a0 == vw(old(args).rest()),
        pargs(a0, p0()) == pargs(vw(args.rest()), st(extra_filename, crate_name, out_dir, extern_crates@)), //#C16 what was read so far, and the options still to come
    ensures
        args.rest().len() == 0,
    decreases args.rest().len(),
//@@proof parse.0.before
    proof { assert(exts(extern_crates@) =~= p0().ext); }
//@@proof parse.0.top
    let ghost r0 = args.rest();
    let ghost s0 = st(extra_filename, crate_name, out_dir, extern_crates@);
    proof {
        if r0.len() > 0 {
            assert(vw(r0).drop_first() =~= vw(r0.drop_first()));
            assert(vw(r0).skip(1) =~= vw(r0.drop_first()));
            if r0.len() > 1 { assert(vw(r0).skip(2) =~= vw(r0.drop_first().drop_first())); assert(vw(r0)[1] == r0[1]@); assert(r0.drop_first()[0] == r0[1]); }
            assert(vw(r0)[0] == r0[0]@);
            assert((*r0[0] == lit("--extern")) == (r0[0]@ == "--extern"@) && (*r0[0] == lit("--crate-name")) == (r0[0]@ == "--crate-name"@) && (*r0[0] == lit("--out-dir")) == (r0[0]@ == "--out-dir"@));
            lemma_dash(r0[0]@);
            lemma_lits();
            lemma_splits(r0[0]@.skip(2));
            if r0.len() > 1 { lemma_splits(r0[1]@); }
        }
    }
//@@proof parse.0.end
    proof {
        if r0.len() > 0 {
            let s1 = st(extra_filename, crate_name, out_dir, extern_crates@);
            assert(exts(extern_crates@) =~= s1.ext);
            assert(r0[0]@ == "--extern"@ ==> s1.ext =~= s0.ext.push(ext_of(r0[1]@)));
            if r0[0]@ == "--extern"@ { assert(pargs(vw(r0), s0) == pargs(vw(args.rest()), s1)); }
            else if r0[0]@ == "--crate-name"@ { assert(pargs(vw(r0), s0) == pargs(vw(args.rest()), s1)); }
            else if r0[0]@ == "--out-dir"@ { assert(pargs(vw(r0), s0) == pargs(vw(args.rest()), s1)); }
            else if r0[0]@ == "-C"@ { assert(pargs(vw(r0), s0) == pargs(vw(args.rest()), s1)); }
            else if starts(r0[0]@, "-C"@) { assert(pargs(vw(r0), s0) == pargs(vw(args.rest()), s1)); }
            assert(pargs(vw(r0), s0) == pargs(vw(args.rest()), s1)); //#C16 every option is read as rustc reads it
        }
    }
//@@spec wrapper
    requires
        old(vx_w).argv@.len() >= 2,
    ensures
        wrapped(*old(vx_w), *final(vx_w), ret), //#C16 the compiler runs once, with the original arguments in order and nothing added but what must be, and the paths are reported
//@@proof wrapper.entry
    let ghost w0 = *vx_w;
    let ghost a = vx_w.argv@.skip(2);
    proof { lemma_lits(); }
//@@inv wrapper.0
    invariant
        0 <= k0 <= i0.len(), vx_it_L0.rest() =~= i0.skip(k0), vx_v_L0@ =~= i0.take(k0), //#C16 every argument is kept, in order
    ensures
        k0 == i0.len(),
    decreases vx_it_L0.rest().len(),
//@@proof wrapper.0.before
    let ghost i0 = vx_it_L0.rest();
    let ghost mut k0 = 0int;
//@@proof wrapper.0.top
    proof { if k0 < i0.len() { assert(i0.skip(k0)[0] == i0[k0]); assert(i0.skip(k0).drop_first() =~= i0.skip(k0 + 1)); assert(i0.take(k0 + 1) =~= i0.take(k0).push(i0[k0])); k0 = k0 + 1; } }
//@@proof wrapper.0.after
    proof {
        assert(i0.take(k0) =~= i0);
        assert forall|j: int| 0 <= j < i0.len() implies (#[trigger] i0[j])@ == a[j] by {}
        assert(ww(vx_v_L0@) =~= a);
    }
//@@inv wrapper.1
    invariant
        0 <= k1 <= i1.len(), i1 == rustc_args@,
        vx_it_L1.rest().len() == i1.len() - k1, forall|j: int| 0 <= j < i1.len() - k1 ==> *(#[trigger] vx_it_L1.rest()[j]) == i1[k1 + j],
        vx_v_L1@.len() == k1, forall|j: int| 0 <= j < k1 ==> #[trigger] vw(vx_v_L1@)[j] == i1[j]@, //#C16 every argument is read
    ensures
        k1 == i1.len(),
    decreases vx_it_L1.rest().len(),
//@@proof wrapper.1.before
    let ghost i1 = rustc_args@;
    let ghost mut k1 = 0int;
//@@proof wrapper.1.end
    proof { assert forall|j: int| 0 <= j < k1 implies #[trigger] vw(vx_v_L1@)[j] == i1[j]@ by { if j < k1 - 1 { assert(vw(v5)[j] == i1[j]@); } } }
//@@proof wrapper.1.top
    let ghost v5 = vx_v_L1@;
    proof { if k1 < i1.len() { assert(*vx_it_L1.rest()[0] == i1[k1]); assert(i1.take(k1 + 1) =~= i1.take(k1).push(i1[k1])); k1 = k1 + 1; } }
//@@proof wrapper.1.after
    proof { assert(vw(vx_v_L1@) =~= ww(rustc_args@)); }
//@@inv wrapper.2
    invariant
        0 <= k2 <= e2.len(), e2 == args.extern_crates@,
        vx_it_L2.rest().len() == e2.len() - k2, forall|j: int| 0 <= j < e2.len() - k2 ==> *(#[trigger] vx_it_L2.rest()[j]) == e2[k2 + j],
        vx_w.argv == w0.argv, vx_w.runs == w0.runs, vx_w.exit == w0.exit,
        vx_w.err@ =~= w0.err@ + rlibs(exts(e2.take(k2))), //#C16 the library paths so far are reported
    ensures
        k2 == e2.len(),
    decreases vx_it_L2.rest().len(),
//@@proof wrapper.2.before
    let ghost e2 = args.extern_crates@;
    let ghost mut k2 = 0int;
    proof { assert(rlibs(exts(e2.take(0))) =~= Seq::empty()); assert(pargs(a, p0()) is Some); }
//@@proof wrapper.2.top
    proof { if k2 < e2.len() {
        assert(*vx_it_L2.rest()[0] == e2[k2]);
        assert(exts(e2.take(k2 + 1)).drop_last() =~= exts(e2.take(k2)));
        assert(exts(e2.take(k2 + 1)).last() == ext_v(e2[k2]));
        if e2[k2].crate_name@ == "compiler_builtins"@ && e2[k2].path is Some { lemma_cat(); }
        k2 = k2 + 1;
    } }
//@@proof wrapper.2.after
    proof { assert(e2.take(k2) =~= e2); lemma_cat(); }
//@@spec run
    requires
        old(vx_w).argv@.len() >= 2,
    ensures
        vx_env("CARGO_CALL_STACK_RUSTC_WRAPPER"@) ==> wrapped(*old(vx_w), *final(vx_w), ret), //#C16 in the wrapper role the tool does nothing else
//@@spec main
    requires
        old(vx_w).argv@.len() >= 2, old(vx_w).exit@ is None,
    ensures
        vx_env("CARGO_CALL_STACK_RUSTC_WRAPPER"@) ==> exists|w: VxWorld, r: Result<i32, VxErr>| #[trigger] wrapped(*old(vx_w), w, r) && final(vx_w).runs == w.runs && final(vx_w).exit@ == Some(match r { Ok(c) => c, Err(_) => 1 }), //#C16 the exit code is the compiler's
//@@code
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::option::*;
verus! {
//@@include iter.inc
//@@include strs.inc
//@@include utf8.inc
pub struct VxErr { pub e: u8 }
#[verifier::external_body]
pub fn vx_err() -> VxErr { unimplemented!() }
// ------------------------------------------------------------------ splitting at a character
/// what lies before the first `c` (everything when there is none), and what lies behind it
pub open spec fn find(s: Seq<char>, c: char) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + find(s.drop_first(), c) } }
pub open spec fn occurs(s: Seq<char>, c: char) -> bool { find(s, c) < s.len() }
pub open spec fn before(s: Seq<char>, c: char) -> Seq<char> { s.take(find(s, c)) }
pub open spec fn behind(s: Seq<char>, c: char) -> Seq<char> { s.skip(find(s, c) + 1) }
pub open spec fn splitn(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>>
    decreases n
{ if n == 0 { Seq::empty() } else if n == 1 || !occurs(s, c) { seq![s] } else { seq![before(s, c)] + splitn(behind(s, c), (n - 1) as nat, c) } }
/// std: splitn, split, split_once
impl VxStr {
    #[verifier::external_body]
    pub fn splitn(&self, n: usize, c: char) -> (r: VxIter<&VxStr>)
        ensures r.rest().len() == splitn(self@, n as nat, c).len(), forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i])@ == splitn(self@, n as nat, c)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, c: char) -> (r: VxIter<&VxStr>)
        ensures r.rest().len() == splitn(self@, self@.len() + 1, c).len(), forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i])@ == splitn(self@, self@.len() + 1, c)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_once(&self, c: char) -> (r: Option<(&VxStr, &VxStr)>)
        ensures r is Some <==> occurs(self@, c), r is Some ==> (r->0).0@ == before(self@, c) && (r->0).1@ == behind(self@, c)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_new() -> (r: VxStr)
        ensures r@ == Seq::<char>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &VxStr)
        ensures final(self)@ == old(self)@ + s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_push(&self, s: &mut VxStr)
        ensures final(s)@ == old(s)@ + self@
    { unimplemented!() }
}
impl VxErr {
    #[verifier::external_body]
    pub fn vx_push(&self, s: &mut VxStr) { unimplemented!() }
}
pub fn vx_opt_str(o: Option<&VxStr>) -> (r: Option<VxStr>)
    ensures r == (match o { Some(s) => Some(*s), None => None })
{ match o { Some(s) => Some(*s), None => None } }
#[verifier::external_body]
pub fn vx_or_empty(o: Option<VxStr>) -> (r: VxStr)
    ensures r@ == (match o { Some(s) => s@, None => Seq::empty() })
{ unimplemented!() }
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>)
        ensures r.rest() == if n <= self.rest().len() { self.rest().skip(n as int) } else { Seq::empty() }
    { unimplemented!() }
}
pub open spec fn vw(s: Seq<&VxStr>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn ww(s: Seq<VxStr>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
//@@insert Extern
//@@insert RustcArgs
// ------------------------------------------------------------------ what a rustc command line says
pub struct P { pub extra: Option<Seq<char>>, pub krate: Option<Seq<char>>, pub out: Option<Seq<char>>, pub ext: Seq<(Seq<char>, Option<Seq<char>>)> }
pub open spec fn p0() -> P { P { extra: None, krate: None, out: None, ext: Seq::empty() } }
pub open spec fn ov(o: Option<VxStr>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ext_v(e: Extern) -> (Seq<char>, Option<Seq<char>>) { (e.crate_name@, ov(e.path)) }
pub open spec fn exts(s: Seq<Extern>) -> Seq<(Seq<char>, Option<Seq<char>>)> { Seq::new(s.len(), |i: int| ext_v(s[i])) }
pub open spec fn st(extra: Option<VxStr>, krate: Option<VxStr>, out: Option<VxStr>, ext: Seq<Extern>) -> P { P { extra: ov(extra), krate: ov(krate), out: ov(out), ext: exts(ext) } }
impl P {
    pub open spec fn is(&self, r: &RustcArgs) -> bool {
        &&& r.extra_filename@ == (match self.extra { Some(s) => s, None => Seq::empty() })
        &&& self.krate == Some(r.crate_name@)
        &&& ov(r.out_dir) == self.out
        &&& exts(r.extern_crates@) == self.ext
    }
}
/// `[options:]name[=path]`
pub open spec fn ext_of(s: Seq<char>) -> (Seq<char>, Option<Seq<char>>) {
    let n = if occurs(s, '=') { before(s, '=') } else { s };
    (if occurs(n, ':') { behind(n, ':') } else { n }, if occurs(s, '=') { Some(behind(s, '=')) } else { None })
}
/// the value of a -C option
pub open spec fn cg(v: Seq<char>, p: P) -> Option<P> {
    let n = if occurs(v, '=') { before(v, '=') } else { v };
    if n != "extra-filename"@ { Some(p) } else if occurs(v, '=') { Some(P { extra: Some(behind(v, '=')), ..p }) } else { None }
}
/// the options from left to right; None when an option lacks its value
pub open spec fn pargs(a: Seq<Seq<char>>, p: P) -> Option<P>
    decreases a.len()
{
    if a.len() == 0 { Some(p) }
    else if a[0] == "--extern"@ { if a.len() < 2 { None } else { pargs(a.skip(2), P { ext: p.ext.push(ext_of(a[1])), ..p }) } }
    else if a[0] == "--crate-name"@ { if a.len() < 2 { None } else { pargs(a.skip(2), P { krate: Some(a[1]), ..p }) } }
    else if a[0] == "--out-dir"@ { if a.len() < 2 { None } else { pargs(a.skip(2), P { out: Some(a[1]), ..p }) } }
    else if a[0] == "-C"@ { if a.len() < 2 { None } else { match cg(a[1], p) { Some(q) => pargs(a.skip(2), q), None => None } } }
    else if starts(a[0], "-C"@) { match cg(a[0].skip(2), p) { Some(q) => pargs(a.skip(1), q), None => None } }
    else { pargs(a.skip(1), p) }
}
proof fn lemma_lits()
    ensures
        "-C"@.len() == 2, ascii("-C"@), blen("-C"@) == 2, starts("-C"@, "-C"@), !starts("--extern"@, "-C"@), !starts("--crate-name"@, "-C"@), !starts("--out-dir"@, "-C"@),
{
    reveal_strlit("-C"); reveal_strlit("--extern"); reveal_strlit("--crate-name"); reveal_strlit("--out-dir");
    assert("--extern"@.take(2)[1] == '-'); assert("--crate-name"@.take(2)[1] == '-'); assert("--out-dir"@.take(2)[1] == '-'); assert("-C"@[1] == 'C'); assert("-C"@.take(2) =~= "-C"@);
    blen_ascii("-C"@);
}
/// behind a leading `-C`
proof fn lemma_dash(s: Seq<char>)
    ensures
        starts(s, "-C"@) ==> blen(s.take(2)) == 2 && forall|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == 2 ==> k == 2,
        starts(s, "-C"@) ==> (s.skip(2).len() == 0 <==> s == "-C"@),
{
    lemma_lits();
    if starts(s, "-C"@) {
        assert forall|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == 2 implies k == 2 by { take_inj(s, k, 2); }
        if s.skip(2).len() == 0 { assert(s.take(2) =~= s); }
        assert("-C"@.skip(2).len() == 0);
    }
}
proof fn lemma_find(s: Seq<char>, c: char)
    ensures 0 <= find(s, c) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_find(s.drop_first(), c); } }
proof fn lemma_splits(s: Seq<char>)
    ensures
        splitn(s, 2, '=').len() == if occurs(s, '=') { 2nat } else { 1nat },
        splitn(s, 2, '=')[0] == if occurs(s, '=') { before(s, '=') } else { s },
        occurs(s, '=') ==> splitn(s, 2, '=')[1] == behind(s, '='),
{ reveal_with_fuel(splitn, 3); }
proof fn lemma_cat()
    ensures forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s
{ assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); } }
// ------------------------------------------------------------------ the world
/// one run of a program; code None: it could not be started, Some(None): it was killed
pub struct VxRun { pub prog: Seq<char>, pub args: Seq<Seq<char>>, pub code: Option<Option<i32>> }
pub struct VxWorld { pub argv: Ghost<Seq<Seq<char>>>, pub err: Ghost<Seq<Seq<char>>>, pub runs: Ghost<Seq<VxRun>>, pub exit: Ghost<Option<i32>> }
pub uninterp spec fn vx_env(n: Seq<char>) -> bool;
pub struct VxOs { pub x: u8 }
impl VxWorld {
    #[verifier::external_body]
    pub fn args(&self) -> (r: VxIter<VxStr>)
        ensures r.rest().len() == self.argv@.len(), forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i])@ == self.argv@[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn var_os(&self, n: &VxStr) -> (r: Option<VxOs>)
        ensures r is Some <==> vx_env(n@)
    { unimplemented!() }
    /// one line on the standard error output
    #[verifier::external_body]
    pub fn eprintln(&mut self, s: &VxStr)
        ensures final(self).err@ == old(self).err@.push(s@), final(self).argv == old(self).argv, final(self).runs == old(self).runs, final(self).exit == old(self).exit
    { unimplemented!() }
    /// the process ends (what would follow does not happen: only the first call counts)
    #[verifier::external_body]
    pub fn exit(&mut self, c: i32)
        ensures final(self).exit@ == (if old(self).exit@ is None { Some(c) } else { old(self).exit@ }), final(self).argv == old(self).argv, final(self).runs == old(self).runs, final(self).err == old(self).err
    { unimplemented!() }
}
pub struct VxStatus { pub c: Ghost<Option<i32>> }
impl VxStatus {
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<i32>)
        ensures r == self.c@
    { unimplemented!() }
}
pub struct VxCommand { pub prog: Ghost<Seq<char>>, pub a: Ghost<Seq<Seq<char>>> }
impl VxCommand {
    #[verifier::external_body]
    pub fn vx_new(p: &VxStr) -> (r: VxCommand)
        ensures r.prog@ == p@, r.a@ == Seq::<Seq<char>>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<A: VxAsStr>(&mut self, s: A)
        ensures final(self).prog == old(self).prog, final(self).a@ == old(self).a@.push(s.vx_s()@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn args(&mut self, s: &Vec<VxStr>)
        ensures final(self).prog == old(self).prog, final(self).a@ == old(self).a@ + ww(s@)
    { unimplemented!() }
    /// run the program and wait for it
    #[verifier::external_body]
    pub fn status(&mut self, w: &mut VxWorld) -> (r: Result<VxStatus, VxErr>)
        ensures
            final(w).argv == old(w).argv, final(w).err == old(w).err, final(w).exit == old(w).exit, *final(self) == *old(self),
            final(w).runs@.len() == old(w).runs@.len() + 1, final(w).runs@.drop_last() == old(w).runs@,
            final(w).runs@.last().prog == old(self).prog@, final(w).runs@.last().args == old(self).a@,
            r is Ok ==> final(w).runs@.last().code == Some((r->Ok_0).c@), r is Err ==> final(w).runs@.last().code is None,
    { unimplemented!() }
}
// ------------------------------------------------------------------ C16
pub open spec fn RLIB() -> &'static str { "@CARGO_CALL_STACK:compiler_builtins_rlib_path@" }
pub open spec fn LL() -> &'static str { "@CARGO_CALL_STACK:compiler_builtins_ll_path@" }
/// the reports of the library
pub open spec fn rlibs(e: Seq<(Seq<char>, Option<Seq<char>>)>) -> Seq<Seq<char>>
    decreases e.len()
{
    if e.len() == 0 { Seq::empty() }
    else if e.last().0 == "compiler_builtins"@ && e.last().1 is Some { rlibs(e.drop_last()).push(RLIB()@ + e.last().1->0) }
    else { rlibs(e.drop_last()) }
}
/// the report of the .ll file
pub open spec fn lls(p: P) -> Seq<Seq<char>> {
    if p.krate == Some("compiler_builtins"@) && p.out is Some { seq![LL()@ + (p.out->0 + "/"@ + "compiler_builtins"@ + (match p.extra { Some(s) => s, None => Seq::empty() }) + ".ll"@)] } else { Seq::empty() }
}
/// `got` is `a` with nothing but the extra options before and behind it
pub open spec fn only_adds(got: Seq<Seq<char>>, a: Seq<Seq<char>>, cb: bool) -> bool {
    let (z, l) = ("-Zemit-stack-sizes"@, "--emit=llvm-ir"@);
    if cb { got =~= seq![l, z] + a || got =~= seq![z, l] + a || got =~= seq![z] + a + seq![l] || got =~= seq![l] + a + seq![z] || got =~= a + seq![z, l] || got =~= a + seq![l, z] }
    else { got =~= seq![z] + a || got =~= a + seq![z] }
}
/// the tool in its wrapper role
pub open spec fn wrapped(w: VxWorld, v: VxWorld, ret: Result<i32, VxErr>) -> bool {
    let a = w.argv@.skip(2);
    let p = pargs(a, p0());
    let cb = p->0.krate == Some("compiler_builtins"@);
    &&& v.argv == w.argv && v.exit == w.exit
    // the compiler is started unless the command line is incomplete
    &&& if p is Some && p->0.krate is Some && (cb ==> p->0.out is Some) {
        &&& v.runs@.len() == w.runs@.len() + 1 && v.runs@.drop_last() =~= w.runs@
        &&& v.runs@.last().prog == w.argv@[1]
        &&& only_adds(v.runs@.last().args, a, cb)
        &&& match v.runs@.last().code {
            Some(Some(c)) => ret == Ok::<i32, VxErr>(c),
            Some(None) => ret is Ok && ret->Ok_0 != 0,
            None => ret is Err,
        }
        &&& (v.err@ =~= w.err@ + rlibs(p->0.ext) + lls(p->0) || v.err@ =~= w.err@ + lls(p->0) + rlibs(p->0.ext))
    } else { ret is Err && v.runs == w.runs }
}
impl RustcArgs {
//@@insert parse
}
//@@insert wrapper
#[verifier::external_body]
fn vx_rest_of_run(w: &mut VxWorld) -> Result<i32, VxErr> { unimplemented!() }
//@@insert run
//@@insert main
fn main() {}
}
