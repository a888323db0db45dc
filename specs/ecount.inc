// ------------------------------------------------------------------ how often an edge occurs
pub open spec fn ec(e: E2, a: int, b: int) -> nat
    decreases e.len()
{ if e.len() == 0 { 0 } else { ec(e.drop_last(), a, b) + (if e.last() == (a, b) { 1nat } else { 0nat }) } }
pub open spec fn nc(s: Seq<NodeIndex>, m: int) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { (if s[0].i() == m { 1nat } else { 0nat }) + nc(s.drop_first(), m) } }
pub proof fn ec_edge(e: E2, a: int, b: int)
    ensures ec(e, a, b) > 0 <==> edge(e, a, b)
    decreases e.len()
{
    if e.len() > 0 {
        let d = e.drop_last();
        ec_edge(d, a, b);
        if edge(d, a, b) { let k = choose|k: int| 0 <= k < d.len() && d[k] == (a, b); assert(e[k] == (a, b)); }
        if e.last() == (a, b) { assert(e[e.len() - 1] == (a, b)); }
        if edge(e, a, b) { let k = choose|k: int| 0 <= k < e.len() && e[k] == (a, b); if k < d.len() { assert(d[k] == (a, b)); } }
    }
}
pub proof fn ec_push(e: E2, x: (int, int))
    ensures forall|a: int, b: int| #[trigger] ec(e.push(x), a, b) == ec(e, a, b) + (if x == (a, b) { 1nat } else { 0nat })
{ assert(e.push(x).drop_last() =~= e); }
pub proof fn nc_at(s: Seq<NodeIndex>, m: int)
    ensures nc(s, m) > 0 <==> at(s, m)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_first();
        nc_at(d, m);
        if at(d, m) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).i() == m; assert(s[k + 1].i() == m); }
        if at(s, m) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i() == m; if k > 0 { assert(d[k - 1].i() == m); } }
    }
}
