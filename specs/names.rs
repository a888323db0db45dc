//@@spec dehash
    ensures
//@@include dehash_spec.inc
//@@proof dehash.entry
    let ghost s = demangled@;
    proof {
        utf8_len(s); reveal_strlit("::h");
        lemma_hashed(s);
        lemma_where(s);
    }
//@@inv dehash.0
    invariant
        0 <= k <= b0.len(), vx_it_L0.rest() =~= b0.skip(k),
        vx_b_L0 == forall|i: int| 0 <= i < k ==> hexb(#[trigger] b0[i]), //#C13 every byte of the hash is examined
    ensures
        k == b0.len(),
    decreases vx_it_L0.rest().len(),
//@@proof dehash.0.before
    let ghost b0 = vx_it_L0.rest();
    let ghost mut k = 0int;
//@@proof dehash.0.top
    proof { if k < b0.len() { assert(b0.skip(k)[0] == b0[k]); assert(b0.skip(k).drop_first() =~= b0.skip(k + 1)); k = k + 1; } }
//@@proof dehash.0.after
    proof {
        assert(vx_b_L0 == all_hex(hash@)) by { hex_bytes(hash@); }
        lemma_hash(s, hash@);
    }
//@@spec block_count
    requires
        g.nodes().len() <= u32::MAX,
    ensures
        forall|p: VxStr| (#[trigger] ret.m().contains_key(p)) <==> cnt(g.nodes(), p@) > 0, //#C13 every path that occurs is counted
        forall|p: VxStr| #[trigger] ret.m().contains_key(p) ==> ret.m()[p] == cnt(g.nodes(), p@), //#C13 the functions with the same path without hash are counted
//@@inv block_count.0
    invariant
        0 <= k <= s0.len(), s0.len() <= u32::MAX, s0 == g.nodes(),
        vx_it_L0.rest().len() == s0.len() - k, forall|i: int| 0 <= i < s0.len() - k ==> *(#[trigger] vx_it_L0.rest()[i]) == s0[k + i],
        forall|p: VxStr| (#[trigger] ambiguous.m().contains_key(p)) <==> cnt(s0.take(k), p@) > 0, //#C13 every path seen so far is counted
        forall|p: VxStr| #[trigger] ambiguous.m().contains_key(p) ==> ambiguous.m()[p] == cnt(s0.take(k), p@), //#C13 the counts are right so far
    ensures
        k == s0.len(),
    decreases vx_it_L0.rest().len(),
//@@proof block_count.0.before
    let ghost s0 = g.nodes();
    let ghost mut k = 0int;
    proof { assert forall|p: Seq<char>| cnt(s0.take(0), p) == 0 by {} }
//@@proof block_count.0.top
    proof {
        if k < s0.len() {
            assert(*vx_it_L0.rest()[0] == s0[k]);
            assert forall|p: Seq<char>| #[trigger] cnt(s0.take(k + 1), p) == cnt(s0.take(k), p) + one(s0[k], p) by {
                assert(s0.take(k + 1).drop_last() =~= s0.take(k)); assert(s0.take(k + 1).last() == s0[k]);
            }
            assert forall|p: Seq<char>| #[trigger] cnt(s0.take(k), p) <= k by { cnt_max(s0.take(k), p); }
            k = k + 1;
        }
    }
//@@proof block_count.0.after
    proof { assert(s0.take(k) =~= s0); }
//@@spec block_shorten
    requires
        g.nodes().len() <= usize::MAX,
        forall|i: int| 0 <= i < g.nodes().len() && hashed(dem((#[trigger] g.nodes()[i]).name@)) ==> ambiguous.m().contains_key(VxStr { s: Ghost(path(dem(g.nodes()[i].name@))) }),
    ensures
        ret.edges() == g.edges(), ret.nodes().len() == g.nodes().len(), //#C13,C08 shortening changes nothing but names
        forall|i: int| 0 <= i < g.nodes().len() ==> (#[trigger] ret.nodes()[i]) == short(g.nodes()[i], ambiguous.m()), //#C13 a name is shortened iff no other function has the same path
//@@inv block_shorten.0
    invariant
        vx_i_L0 <= vx_n_L0, vx_n_L0 == g0.nodes().len(), g.edges() == g0.edges(), g.nodes().len() == g0.nodes().len(),
        forall|i: int| 0 <= i < g0.nodes().len() && hashed(dem((#[trigger] g0.nodes()[i]).name@)) ==> ambiguous.m().contains_key(VxStr { s: Ghost(path(dem(g0.nodes()[i].name@))) }),
        forall|i: int| 0 <= i < vx_i_L0 ==> (#[trigger] g.nodes()[i]) == short(g0.nodes()[i], ambiguous.m()), //#C13 the names so far are shortened as stated
        forall|i: int| vx_i_L0 <= i < g0.nodes().len() ==> (#[trigger] g.nodes()[i]) == g0.nodes()[i],
    ensures
        vx_i_L0 == vx_n_L0,
    decreases vx_n_L0 - vx_i_L0,
//@@proof block_shorten.entry
    let ghost g0 = g;
//@@code
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
use vstd::std_specs::cmp::*;
verus! {
//@@include iter.inc
//@@include strs.inc
//@@include maps.inc
//@@include utf8.inc
//@@include dehash.inc
//@@include graph0.inc
//@@include demangle.inc
//@@insert Local
//@@insert Max
//@@insert Node
/// node n has path p
pub open spec fn one(n: Node, p: Seq<char>) -> nat { if hashed(dem(n.name@)) && path(dem(n.name@)) == p { 1 } else { 0 } }
/// how many functions have the path p once the hash is removed
pub open spec fn cnt(s: Seq<Node>, p: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { cnt(s.drop_last(), p) + one(s.last(), p) } }
pub proof fn cnt_max(s: Seq<Node>, p: Seq<char>)
    ensures cnt(s, p) <= s.len()
    decreases s.len()
{ if s.len() > 0 { cnt_max(s.drop_last(), p); } }
/// the node with the name it is shown under
pub open spec fn short(n: Node, m: IMap<VxStr, u32>) -> Node {
    let p = VxStr { s: Ghost(path(dem(n.name@))) };
    if hashed(dem(n.name@)) && m[p] == 1 { Node { name: p, ..n } } else { n }
}
/// byte offsets around a hash
proof fn lemma_hashed(s: Seq<char>)
    ensures hashed(s) ==> blen(s) > 19 && blen(s.take(s.len() - 19)) == blen(s) - 19, s.len() > 19 ==> blen(s) > 19
{
    blen_min(s);
    if hashed(s) {
        let (a, h) = (s.take(s.len() - 19), s.skip(s.len() - 19));
        assert(s =~= a + h); blen_cat(a, h); blen_min(a);
        assert(ascii(h)) by { assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) as u32 <= 0x7f by { if i >= 3 { assert(h.skip(3)[i - 3] == h[i]); } } }
        blen_ascii(h);
    }
}
/// where a hash begins
proof fn lemma_where(s: Seq<char>)
    ensures
        hashed(s) ==> forall|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == blen(s) - 19 ==> k == s.len() - 19 && starts(s.skip(k), "::h"@),
{
    lemma_hashed(s);
    reveal_strlit("::h");
    if hashed(s) {
        assert forall|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == blen(s) - 19 implies k == s.len() - 19 && starts(s.skip(k), "::h"@) by {
            take_inj(s, k, s.len() - 19);
            assert(s.skip(k).take(3) =~= "::h"@);
        }
    }
}
/// what is left of the last 19 bytes behind `::h`
proof fn lemma_hash(s: Seq<char>, r: Seq<char>)
    requires blen(s) > 19
    ensures
        forall|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == blen(s) - 19 && starts(s.skip(k), "::h"@) && r == s.skip(k).skip(3) ==> (all_hex(r) <==> hashed(s)) && (hashed(s) ==> k == s.len() - 19),
{
    reveal_strlit("::h");
    lemma_hashed(s);
    assert forall|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == blen(s) - 19 && starts(s.skip(k), "::h"@) && r == s.skip(k).skip(3) implies (all_hex(r) <==> hashed(s)) && (hashed(s) ==> k == s.len() - 19) by {
        let (a, h) = (s.take(k), s.skip(k));
        assert(s =~= a + h); blen_cat(a, h);
        assert(h.take(3)[0] == h[0] && h.take(3)[1] == h[1] && h.take(3)[2] == h[2]);
        if hashed(s) { take_inj(s, k, s.len() - 19); }
        if all_hex(r) {
            assert(ascii(h)) by { assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) as u32 <= 0x7f by { if i >= 3 { assert(r[i - 3] == h[i]); } } }
            blen_ascii(h);
            assert(hash19(h));
            if a.len() == 0 { assert(blen(a) == 0); }
            assert(k == s.len() - 19);
        }
    }
}
//@@insert dehash
//@@insert block_count
//@@insert block_shorten
/// two functions are never shortened to the same name //#C13
proof fn no_clash(s: Seq<Node>, i: int, j: int)
    requires 0 <= i < j < s.len(), hashed(dem(s[i].name@)), hashed(dem(s[j].name@)), path(dem(s[i].name@)) == path(dem(s[j].name@))
    ensures cnt(s, path(dem(s[i].name@))) >= 2
{
    let p = path(dem(s[i].name@));
    cnt_mono(s, i + 1, j, p); cnt_mono(s, j + 1, s.len() as int, p); cnt_mono(s, 0, i, p);
    assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(j + 1).drop_last() =~= s.take(j));
    assert(s.take(s.len() as int) =~= s);
}
proof fn cnt_mono(s: Seq<Node>, a: int, b: int, p: Seq<char>)
    requires 0 <= a <= b <= s.len()
    ensures cnt(s.take(a), p) <= cnt(s.take(b), p)
    decreases b - a
{ if a < b { cnt_mono(s, a, b - 1, p); assert(s.take(b).drop_last() =~= s.take(b - 1)); } }
fn main() {}
}
