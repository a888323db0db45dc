/// all the figures are exact
pub open spec fn all_exact(s: Seq<Max>) -> bool { forall|i: int| 0 <= i < s.len() ==> exact(#[trigger] s[i]) }
/// n is the largest of the numbers
pub open spec fn is_largest(s: Seq<Max>, n: nat) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> known(#[trigger] s[i]) <= n
    &&& exists|i: int| 0 <= i < s.len() && known(#[trigger] s[i]) == n
}
/// r is the maximum of the collection s (this does not mention the order of s)
pub open spec fn is_max_of(s: Seq<Max>, r: Option<Max>) -> bool {
    match r {
        None => s.len() == 0,
        Some(m) => s.len() > 0 && is_largest(s, known(m)) && (exact(m) <==> all_exact(s)),
    }
}
