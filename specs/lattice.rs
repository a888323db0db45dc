//@@spec max
    ensures
        ret == figure(exact(lhs) && exact(rhs), if known(lhs) >= known(rhs) { known(lhs) } else { known(rhs) }), //#C05 the maximum of two figures is exact only if both are
//@@spec max_of
    ensures
        is_max_of(iter.rest(), ret), //#C05 the maximum of a collection is exact iff all its figures are, and none if it is empty
//@@inv max_of.0
    invariant
        s0.len() > 0,
        0 <= k <= s0.len(),
        k > 0,
        vx_it_L0.rest() =~= s0.skip(k),
        is_max_of(s0.take(k), Some(vx_acc_L0)), //#C05 the accumulated maximum is right
    ensures
        k == s0.len(),
    decreases vx_it_L0.rest().len(),
//@@proof max_of.entry
    let ghost s0 = iter.rest();
    let ghost mut k = 1int;
    proof { if s0.len() > 0 { assert(s0.take(1)[0] == s0[0]); lemma_one(s0.take(1)); } }
//@@proof max_of.0.top
    proof {
        if k < s0.len() {
            assert(s0.skip(k)[0] == s0[k]);
            lemma_push(s0, k, vx_acc_L0);
            assert(s0.skip(k).drop_first() =~= s0.skip(k + 1));
            k = k + 1;
        }
    }
//@@proof max_of.0.after
    proof { assert(s0.take(k) =~= s0); }
//@@code
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use core::{ops, cmp};
verus! {
//@@include iter.inc
//@@include lattice.inc
proof fn lemma_one(s: Seq<Max>)
    requires s.len() == 1
    ensures is_max_of(s, Some(s[0]))
{ assert(known(s[0]) == known(s[0])); }
proof fn lemma_push(s: Seq<Max>, k: int, acc: Max)
    requires 0 < k < s.len(), is_max_of(s.take(k), Some(acc))
    ensures forall|m: Max| m == figure(exact(acc) && exact(s[k]), if known(acc) >= known(s[k]) { known(acc) } else { known(s[k]) }) ==> is_max_of(s.take(k + 1), Some(m))
{
    let a = s.take(k); let b = s.take(k + 1);
    assert(b =~= a.push(s[k]));
    let i = choose|i: int| 0 <= i < a.len() && known(#[trigger] a[i]) == known(acc);
    assert(b[i] == a[i]);
    assert(b[k] == s[k]);
    assert(forall|j: int| 0 <= j < k ==> #[trigger] b[j] == a[j]);
    if all_exact(b) { assert forall|j: int| 0 <= j < a.len() implies exact(#[trigger] a[j]) by { assert(b[j] == a[j]); } }
}
//@@insert max
//@@insert max_of

// ------------------------------------------------------------------ C05, from the contracts above
/// the maximum of a collection does not depend on its order //#C05
proof fn order_independent(s: Seq<Max>, t: Seq<Max>, a: Option<Max>, b: Option<Max>)
    requires s.to_multiset() == t.to_multiset(), is_max_of(s, a), is_max_of(t, b)
    ensures a == b
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert(s.len() == t.len());
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() implies t.contains(#[trigger] s[i]) by { assert(s.to_multiset().count(s[i]) > 0); }
        assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.to_multiset().count(t[i]) > 0); }
        let (x, y) = (a->0, b->0);
        let i = choose|i: int| 0 <= i < s.len() && known(#[trigger] s[i]) == known(x);
        let j = choose|j: int| 0 <= j < t.len() && known(#[trigger] t[j]) == known(y);
        assert(t.contains(s[i])); assert(s.contains(t[j]));
        assert(known(x) == known(y));
        if all_exact(s) { assert forall|q: int| 0 <= q < t.len() implies exact(#[trigger] t[q]) by { assert(s.contains(t[q])); } }
        if all_exact(t) { assert forall|q: int| 0 <= q < s.len() implies exact(#[trigger] s[q]) by { assert(t.contains(s[q])); } }
    }
}
/// an exact figure claims exact inputs, and a sum or maximum is never below its parts //#C05
proof fn no_more_precise(a: Max, b: Max, l: Local)
    requires known(a) + known(b) <= u64::MAX, known(a) + lknown(l) <= u64::MAX
    ensures
        exact(AddSpec::add_spec(a, b)) ==> exact(a) && exact(b),
        known(AddSpec::add_spec(a, b)) == known(a) + known(b),
        exact(AddSpec::add_spec(a, l)) ==> exact(a) && l is Exact,
        known(AddSpec::add_spec(a, l)) == known(a) + lknown(l),
        exact(IntoSpec::<Max>::into_spec(l)) <==> l is Exact,
{}
}
fn main() {}
