// ------------------------------------------------------------------ C14, from the contracts above
/// where the quoted string that s is the inside and the rest of ends
pub open spec fn close(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == '"' { 0 }
    else if s[0] == '\\' && s.len() >= 2 { 2 + close(s.skip(2)) }
    else { 1 + close(s.skip(1)) }
}
/// the escaped text read back
pub open spec fn unesc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s[0] == '\\' && s.len() >= 2 { seq![s[1]] + unesc(s.skip(2)) }
    else { seq![s[0]] + unesc(s.skip(1)) }
}
pub proof fn esc_front(a: Seq<char>)
    requires a.len() > 0
    ensures esc(a) == esc1(a[0]) + esc(a.skip(1))
{
    let h = seq![a[0]];
    assert(a =~= h + a.skip(1));
    esc_cat(h, a.skip(1));
    assert(h.drop_last() =~= Seq::<char>::empty()); assert(esc(Seq::<char>::empty()) =~= Seq::empty());
    assert(esc(h) =~= esc1(a[0]));
}
/// an escaped text never ends the quoted string it is in //#C14
pub proof fn close_esc(a: Seq<char>, r: Seq<char>)
    ensures close(esc(a) + r) == esc(a).len() + close(r)
    decreases a.len()
{
    if a.len() == 0 { assert(esc(a) + r =~= r); }
    else {
        esc_front(a); close_esc(a.skip(1), r);
        let t = esc(a) + r; let u = esc(a.skip(1)) + r;
        if a[0] == '"' || a[0] == '\\' { assert(t[0] == '\\' && t.skip(2) =~= u); } else { assert(t[0] == a[0] && t.skip(1) =~= u); }
    }
}
/// nothing of a name is lost in escaping it: it can be read back //#C14,C15
pub proof fn unesc_esc(a: Seq<char>)
    ensures unesc(esc(a)) == a
    decreases a.len()
{
    if a.len() > 0 {
        esc_front(a); unesc_esc(a.skip(1));
        let t = esc(a);
        if a[0] == '"' || a[0] == '\\' { assert(t[0] == '\\' && t[1] == a[0] && t.skip(2) =~= esc(a.skip(1))); } else { assert(t[0] == a[0] && t.skip(1) =~= esc(a.skip(1))); }
        assert(unesc(t) =~= seq![a[0]] + a.skip(1));
        assert(unesc(t) =~= a);
    }
}
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '"' && s[i] != '\\' }
pub proof fn close_plain(s: Seq<char>, r: Seq<char>)
    requires plain(s)
    ensures close(s + r) == s.len() + close(r)
    decreases s.len()
{
    if s.len() == 0 { assert(s + r =~= r); }
    else {
        assert(plain(s.skip(1))) by { assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]) != '"' && s.skip(1)[i] != '\\' by { assert(s.skip(1)[i] == s[i + 1]); } }
        close_plain(s.skip(1), r);
        assert((s + r)[0] == s[0]); assert((s + r).skip(1) =~= s.skip(1) + r);
    }
}
pub proof fn plain_dec(n: nat)
    ensures plain(dec(n))
    decreases n
{ if n >= 10 { plain_dec(n / 10); } }
pub proof fn plain_cat(a: Seq<char>, b: Seq<char>)
    requires plain(a), plain(b)
    ensures plain(a + b)
{}
/// the label of a node ends at the quote the writer puts behind it and nowhere earlier //#C14
proof fn label_closed(n: Node, r: Seq<char>)
    ensures close(label_text(n) + "\""@ + r) == label_text(n).len()
{
    reveal_strlit("\""); reveal_strlit("\\nmax "); reveal_strlit("\\nlocal = "); reveal_strlit("= "); reveal_strlit(">= "); reveal_strlit("?");
    let q = "\""@ + r;
    let l = show_local(n.local);
    match n.local { Local::Exact(k) => plain_dec(k as nat), _ => {} }
    assert(plain(l));
    close_plain(l, q);
    let t = "nlocal = "@;
    reveal_strlit("nlocal = ");
    let u = "\\nlocal = "@;
    assert(u.len() == 10);
    assert(plain(u.skip(2))) by { assert forall|i: int| 0 <= i < u.skip(2).len() implies (#[trigger] u.skip(2)[i]) != '"' && u.skip(2)[i] != '\\' by { assert(u.skip(2)[i] == u[i + 2]); } }
    close_plain(u.skip(2), l + q);
    assert((u + (l + q)).skip(2) =~= u.skip(2) + (l + q)); assert((u + (l + q))[0] == '\\');
    let lq = u + (l + q);
    assert(close(lq) == 10 + l.len());
    match n.max {
        Some(m) => {
            let sm = show_max(m);
            match m { Max::Exact(k) => { plain_dec(k as nat); } Max::LowerBound(k) => { plain_dec(k as nat); } }
            assert(plain(sm));
            close_plain(sm, lq);
            let v = "\\nmax "@;
            assert(plain(v.skip(2))) by { assert forall|i: int| 0 <= i < v.skip(2).len() implies (#[trigger] v.skip(2)[i]) != '"' && v.skip(2)[i] != '\\' by { assert(v.skip(2)[i] == v[i + 2]); } }
            close_plain(v.skip(2), sm + lq);
            assert((v + (sm + lq)).skip(2) =~= v.skip(2) + (sm + lq)); assert((v + (sm + lq))[0] == '\\');
            close_esc(dem(n.name@), v + (sm + lq));
            assert(label_text(n) + "\""@ + r =~= esc(dem(n.name@)) + (v + (sm + lq)));
        }
        None => {
            close_esc(dem(n.name@), lq);
            assert(label_text(n) + "\""@ + r =~= esc(dem(n.name@)) + lq);
        }
    }
}
