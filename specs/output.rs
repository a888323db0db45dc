//@@spec Local_fmt
    ensures
        ret is Ok ==> final(f).out@ =~= old(f).out@ + show_local(*self), //#C14 a frame is shown as its number, or `?` if unknown
//@@spec Max_fmt
    ensures
        ret is Ok ==> final(f).out@ =~= old(f).out@ + show_max(*self), //#C14 a maximum is shown as `= N` if exact and `>= N` if not
//@@spec Escaper_new
    ensures
        *ret.writer == *old(writer), *final(ret.writer) == *final(writer), ret.error is Ok,
//@@spec Escaper_write_str
    ensures
        ret is Ok ==> final(self).raw() =~= old(self).raw() + esc(s@) && final(self).ok() == old(self).ok(), //#C14,C15 every character is written, quotes and backslashes behind a backslash
        ret is Err ==> !final(self).ok(), //#C14,C15 a failed write is not forgotten
        final(self).same(old(self)),
//@@inv Escaper_write_str.0
    invariant
        0 <= k <= s@.len(), vx_it_L0.rest() =~= s@.skip(k), self.same(&s0), s0 == *old(self),
        self.ok() == s0.ok(),
        self.raw() =~= s0.raw() + esc(s@.take(k)), //#C14,C15 the characters so far are written
    ensures
        k == s@.len(),
    decreases vx_it_L0.rest().len(),
//@@proof Escaper_write_str.0.before
    let ghost mut k = 0int;
    let ghost s0 = *self;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); }
//@@proof Escaper_write_str.0.top
    proof { if k < s@.len() {
        assert(s@.skip(k)[0] == s@[k]); assert(s@.skip(k).drop_first() =~= s@.skip(k + 1));
        assert(s@.take(k + 1).drop_last() =~= s@.take(k)); assert(s@.take(k + 1).last() == s@[k]);
        k = k + 1;
    } }
//@@proof Escaper_write_str.0.after
    proof { assert(s@.take(k) =~= s@); }
//@@spec Escaper_write_char_closure
    ensures
        ret is Ok ==> final(self).raw() =~= old(self).raw() + esc1(c), //#C14,C15 a quote or backslash is written behind a backslash, any other character as it is
        final(self).error == old(self).error, final(self).same(old(self)),
//@@proof Escaper_write_char_closure.entry
    proof { reveal_strlit("\\"); }
//@@spec Escaper_write_char
    ensures
        ret is Ok ==> final(self).raw() =~= old(self).raw() + esc1(c) && final(self).ok() == old(self).ok(), //#C14,C15 a quote or backslash is written behind a backslash, any other character as it is
        ret is Err ==> !final(self).ok(), //#C14,C15 a failed write is not forgotten
        final(self).same(old(self)),
//@@spec dot
    requires
        g.nodes().len() <= usize::MAX,
    ensures
        ret is Ok ==> final(stdout).out@ =~= old(stdout).out@ + dot_text(g.nodes(), g.edges(), ids(cycles@)), //#C14 the output is the graph in dot notation: every node, edge and cycle once
//@@inv dot.0
    invariant
        0 <= k <= s0.len(), s0.len() <= usize::MAX, vx_k_L0 == k, s0 == g.nodes(),
        vx_it_L0.rest().len() == s0.len() - k, forall|i: int| 0 <= i < s0.len() - k ==> (#[trigger] vx_it_L0.rest()[i]).weight == s0[k + i],
        stdout.out@ =~= pre + nodes_text(s0.take(k)), //#C14 every node so far has one statement, with its label, maximum, frame and style
    ensures
        k == s0.len(),
    decreases vx_it_L0.rest().len(),
//@@proof dot.0.before
    let ghost s0 = g.nodes();
    let ghost pre = stdout.out@;
    let ghost mut k = 0int;
//@@proof dot.0.top
    proof {
        if k < s0.len() {
            assert(vx_it_L0.rest()[0].weight == s0[k]);
            assert(s0.take(k + 1).drop_last() =~= s0.take(k)); assert(s0.take(k + 1).last() == s0[k]);
            k = k + 1;
        }
    }
//@@proof dot.0.after
    proof { assert(s0.take(k) =~= s0); }
//@@inv dot.1
    invariant
        0 <= k <= e0.len(), e0 == g.edges(),
        vx_it_L1.rest().len() == e0.len() - k, forall|i: int| 0 <= i < e0.len() - k ==> (#[trigger] vx_it_L1.rest()[i]).e@ == e0[k + i],
        stdout.out@ =~= pre + edges_text(e0.take(k)), //#C14 every edge so far has one statement, from caller to callee
    ensures
        k == e0.len(),
    decreases vx_it_L1.rest().len(),
//@@proof dot.1.before
    let ghost e0 = g.edges();
    let ghost pre = stdout.out@;
    let ghost mut k = 0int;
//@@proof dot.1.top
    proof {
        if k < e0.len() {
            assert(vx_it_L1.rest()[0].e@ == e0[k]);
            assert(e0.take(k + 1).drop_last() =~= e0.take(k)); assert(e0.take(k + 1).last() == e0[k]);
            k = k + 1;
        }
    }
//@@proof dot.1.after
    proof { assert(e0.take(k) =~= e0); }
//@@inv dot.2
    invariant
        0 <= k <= c0.len(), vx_k_L2 == k, c0 == cycles@, c0.len() <= usize::MAX,
        vx_it_L2.rest().len() == c0.len() - k, forall|i: int| 0 <= i < c0.len() - k ==> *(#[trigger] vx_it_L2.rest()[i]) == c0[k + i],
        stdout.out@ =~= pre + clusters_text(ids(c0.take(k))), //#C14 every cycle so far has one cluster
    ensures
        k == c0.len(),
    decreases vx_it_L2.rest().len(),
//@@proof dot.2.before
    let ghost c0 = cycles@;
    let ghost pre = stdout.out@;
    let ghost mut k = 0int;
    proof { assert(cycles.len() <= usize::MAX); assert(ids(c0.take(0)) =~= Seq::<Seq<int>>::empty()); }
//@@proof dot.2.top
    let ghost kk = k;
    let ghost out1 = stdout.out@;
    proof {
        if k < c0.len() {
            assert(*vx_it_L2.rest()[0] == c0[k]);
            assert(ids(c0.take(k + 1)).drop_last() =~= ids(c0.take(k))); assert(ids(c0.take(k + 1)).last() == idx(c0[k]@));
            k = k + 1;
        }
    }
//@@proof dot.2.after
    proof { assert(c0.take(k) =~= c0); }
//@@inv dot.3
    invariant
        0 <= j <= m0.len(), m0 == cycle@,
        vx_it_L3.rest().len() == m0.len() - j, forall|i: int| 0 <= i < m0.len() - j ==> *(#[trigger] vx_it_L3.rest()[i]) == m0[j + i],
        stdout.out@ =~= pre3 + members_text(idx(m0.take(j))), //#C14 every member of the cycle so far is listed
    ensures
        j == m0.len(),
    decreases vx_it_L3.rest().len(),
//@@proof dot.3.before
    let ghost m0 = cycle@;
    let ghost pre3 = stdout.out@;
    let ghost mut j = 0int;
    proof { assert(idx(m0.take(0)) =~= Seq::<int>::empty()); }
//@@proof dot.3.top
    proof {
        if j < m0.len() {
            assert(*vx_it_L3.rest()[0] == m0[j]);
            assert(idx(m0.take(j + 1)).drop_last() =~= idx(m0.take(j))); assert(idx(m0.take(j + 1)).last() == m0[j].i());
            j = j + 1;
        }
    }
//@@proof dot.3.after
    proof { assert(m0.take(j) =~= m0); }
//@@spec top_order
    ensures
        ret == ord(*vx_a, *vx_b), //#C15 functions are ordered by decreasing frame, an unknown frame counting as 0
//@@spec top
    ensures
        ret is Ok ==> top_ok(g.nodes(), old(stdout).out@, final(stdout).out@), //#C15 the largest maximum first, then every function once by decreasing frame
//@@inv top.0
    invariant
        0 <= k <= s0.len(), s0 == g.nodes(),
        vx_it_L0.rest().len() == s0.len() - k, forall|i: int| 0 <= i < s0.len() - k ==> (#[trigger] vx_it_L0.rest()[i]).weight == s0[k + i],
        nodes@ =~= s0.take(k), //#C15 every function so far is listed
    ensures
        k == s0.len(),
    decreases vx_it_L0.rest().len(),
//@@proof top.0.before
    let ghost s0 = g.nodes();
    let ghost mut k = 0int;
//@@proof top.0.top
    proof { if k < s0.len() { assert(vx_it_L0.rest()[0].weight == s0[k]); k = k + 1; } }
//@@proof top.0.after
    proof { assert(s0.take(k) =~= s0); assert(nodes@ =~= s0); }
//@@inv top.1
    invariant
        0 <= k1 <= s0.len(), s0 == nodes@, s0 == g.nodes(),
        vx_it_L1.rest().len() == s0.len() - k1, forall|i: int| 0 <= i < s0.len() - k1 ==> *(#[trigger] vx_it_L1.rest()[i]) == s0[k1 + i],
        vx_v_L1@ =~= maxs(s0.take(k1)), //#C15 every function's maximum is looked at
    ensures
        k1 == s0.len(),
    decreases vx_it_L1.rest().len(),
//@@proof top.1.before
    let ghost mut k1 = 0int;
    proof { assert(maxs(s0.take(0)) =~= Seq::<Max>::empty()); }
//@@proof top.1.top
    proof { if k1 < s0.len() { assert(*vx_it_L1.rest()[0] == s0[k1]); assert(maxs(s0.take(k1 + 1)) =~= maxs(s0.take(k1)).push(mx(s0[k1]))); k1 = k1 + 1; } }
//@@proof top.1.after
    proof { assert(s0.take(k1) =~= s0); }
//@@inv top.2
    invariant
        0 <= k <= t.len(), t == nodes@,
        vx_it_L2.rest().len() == t.len() - k, forall|i: int| 0 <= i < t.len() - k ==> *(#[trigger] vx_it_L2.rest()[i]) == t[k + i],
        stdout.out@ =~= pre + lines(t.take(k)), //#C15 every function so far has one line, with its frame and escaped name
    ensures
        k == t.len(),
    decreases vx_it_L2.rest().len(),
//@@proof top.2.before
    proof {
        assert forall|n: nat| is_largest(maxs(s0), n) implies n == largest(maxs(s0)) by { largest_one(maxs(s0), n); }
        assert(sorted(nodes@)); assert(maxs(s0).len() == s0.len());
        assert(stdout.out@ =~= old(stdout).out@ + max_line(s0) + "Usage Function\n"@);
    }
    let ghost t = nodes@;
    let ghost pre = stdout.out@;
    let ghost mut k = 0int;
    proof { assert(t.take(0) =~= Seq::<Node>::empty()); }
//@@proof top.2.top
    proof {
        esc_nl();
        if k < t.len() {
            assert(*vx_it_L2.rest()[0] == t[k]);
            assert(t.take(k + 1).drop_last() =~= t.take(k)); assert(t.take(k + 1).last() == t[k]);
            k = k + 1;
        }
    }
//@@proof top.2.after
    proof { assert(t.take(k) =~= t); assert(sorted(t)); assert(top_witness(s0, t, old(stdout).out@, stdout.out@)); }
//@@code
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
use vstd::std_specs::cmp::*;
verus! {
//@@include iter.inc
//@@include strs.inc
//@@include fmt.inc
//@@include graph0.inc
//@@include output.inc
//@@insert Escaper
impl<'a> Escaper<'a> {
    pub open spec fn raw(&self) -> Seq<char> { (*self.writer).out@ }
    pub open spec fn ok(&self) -> bool { self.error is Ok }
    /// writes to the same place
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool { *final(self.writer) == *final(o.writer) }
//@@insert Escaper_new
//@@insert Escaper_write_str
//@@insert Escaper_write_char_closure
//@@insert Escaper_write_char
}
impl<'a> VxSink for Escaper<'a> {
    open spec fn sraw(&self) -> Seq<char> { self.raw() }
    open spec fn senc(s: Seq<char>) -> Seq<char> { esc(s) }
    open spec fn sok(&self) -> bool { self.ok() }
    #[verifier::prophetic]
    open spec fn ssame(&self, o: &Self) -> bool { self.same(o) }
    proof fn hom(a: Seq<char>, b: Seq<char>) { esc_cat(a, b); }
    fn sink(&mut self, s: &VxStr) -> (r: Result<(), VxErr>) { self.write_str(s) }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(250)]
//@@insert dot
//@@insert top_order
//@@insert top
//@@include output_lemmas.inc
}
fn main() {}
