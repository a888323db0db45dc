// ------------------------------------------------------------------ C09: the relation
/// compatibility is reflexive and symmetric //#C09
proof fn loose_refl_sym(i1: Seq<T>, o1: Option<Box<T>>, i2: Seq<T>, o2: Option<Box<T>>)
    ensures sloose(i1, o1, i1, o1), sloose(i1, o1, i2, o2) <==> sloose(i2, o2, i1, o1)
{
    if sloose(i1, o1, i2, o2) { assert forall|k: int| 0 <= k < i2.len() implies loose(#[trigger] i2[k], i1[k]) by { assert(loose(i1[k], i2[k])); } }
    if sloose(i2, o2, i1, o1) { assert forall|k: int| 0 <= k < i1.len() implies loose(#[trigger] i1[k], i2[k]) by { assert(loose(i2[k], i1[k])); } }
}
// ------------------------------------------------------------------ C12: the notation is unambiguous
/// well-formed: no double quote inside an alias name (LLVM writes it as \22)
pub open spec fn wf(t: T) -> bool
    decreases t
{
    match t {
        T::Alias(s) => !s.contains('"'),
        T::Array(_, t) => wf(*t),
        T::Packed(f) => wfs(f),
        T::Struct(f) => wfs(f),
        T::Fn(i, o) => wfs(i) && (match o { Some(t) => wf(*t), None => true }),
        T::Ptr(t) => wf(*t),
        T::Vector(_, t) => wf(*t),
        _ => true,
    }
}
pub open spec fn wfs(s: Seq<T>) -> bool
    decreases s
{ forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
/// what may follow a number: not a digit
pub open spec fn nodigit(x: Seq<char>) -> bool { x.len() == 0 || !is_digit(x[0]) }
/// what may follow a complete type
pub open spec fn term(x: Seq<char>) -> bool {
    x.len() == 0 || x[0] == ',' || x[0] == ']' || x[0] == '>' || x[0] == ')' || x[0] == '}' || (x[0] == ' ' && x.len() > 1 && x[1] == '}')
}
/// what may follow a list
pub open spec fn close(x: Seq<char>) -> bool { x.len() > 0 && (x[0] == ')' || x[0] == '}' || (x[0] == ' ' && x.len() > 1 && x[1] == '}')) }
/// a type is a base type (None: `void`) followed by suffixes
pub enum S { Star, Args(Seq<T>) }
pub open spec fn base(t: T) -> Option<T>
    decreases t
{ match t { T::Ptr(t) => base(*t), T::Fn(i, Some(o)) => base(*o), T::Fn(i, None) => None, t => Some(t) } }
pub open spec fn sufs(t: T) -> Seq<S>
    decreases t
{ match t { T::Ptr(t) => sufs(*t).push(S::Star), T::Fn(i, Some(o)) => sufs(*o).push(S::Args(i)), T::Fn(i, None) => seq![S::Args(i)], t => Seq::empty() } }
pub open spec fn sone(s: S) -> Seq<char> { match s { S::Star => "*"@, S::Args(i) => " ("@ + list(i, i.len()) + ")"@ } }
pub open spec fn sstr(u: Seq<S>, j: nat) -> Seq<char>
    decreases u.len() - j
{ if j >= u.len() { Seq::empty() } else { sone(u[j as int]) + sstr(u, j + 1) } }
pub open spec fn bstr(b: Option<T>) -> Seq<char> { match b { None => "void"@, Some(t) => show(t) } }
pub open spec fn atom(t: T) -> bool { !(t is Ptr) && !(t is Fn) }
proof fn strlits()
    ensures
        "*"@ =~= seq!['*'], " ("@ =~= seq![' ', '('], ")"@ =~= seq![')'], ", "@ =~= seq![',', ' '], "{"@ =~= seq!['{'], "}"@ =~= seq!['}'], " "@ =~= seq![' '],
        "<"@ =~= seq!['<'], ">"@ =~= seq!['>'], "["@ =~= seq!['['], "]"@ =~= seq![']'], "i"@ =~= seq!['i'], "\""@ =~= seq!['"'], "%\""@ =~= seq!['%', '"'],
        "void"@ =~= seq!['v', 'o', 'i', 'd'], "double"@ =~= seq!['d', 'o', 'u', 'b', 'l', 'e'], "float"@ =~= seq!['f', 'l', 'o', 'a', 't'], "ptr"@ =~= seq!['p', 't', 'r'],
        "..."@ =~= seq!['.', '.', '.'], " x "@ =~= seq![' ', 'x', ' '],
{
    reveal_strlit("*"); reveal_strlit(" ("); reveal_strlit(")"); reveal_strlit(", "); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit(" "); reveal_strlit("<"); reveal_strlit(">");
    reveal_strlit("["); reveal_strlit("]"); reveal_strlit("i"); reveal_strlit("\""); reveal_strlit("%\""); reveal_strlit("void"); reveal_strlit("double"); reveal_strlit("float");
    reveal_strlit("ptr"); reveal_strlit("..."); reveal_strlit(" x ");
}
// ---- sequences
proof fn cancel(p: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires p + x == p + y
    ensures x == y
{ assert((p + x).skip(p.len() as int) =~= x); assert((p + y).skip(p.len() as int) =~= y); }
proof fn assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
// ---- numbers
proof fn dec_digits(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i])
    decreases n
{ if n >= 10 { dec_digits(n / 10); } }
proof fn digit_inj(a: nat, b: nat)
    requires a < 10, b < 10, digit(a) == digit(b)
    ensures a == b
{}
proof fn dec_inj(n: nat, m: nat)
    requires dec(n) == dec(m)
    ensures n == m
    decreases n
{
    dec_digits(n); dec_digits(m);
    if n < 10 && m < 10 { assert(dec(n)[0] == dec(m)[0]); digit_inj(n, m); }
    else if n >= 10 && m >= 10 {
        assert(dec(n).drop_last() =~= dec(n / 10)); assert(dec(m).drop_last() =~= dec(m / 10));
        assert(dec(n).last() == digit(n % 10)); assert(dec(m).last() == digit(m % 10));
        dec_inj(n / 10, m / 10); digit_inj(n % 10, m % 10);
    } else if n < 10 { dec_digits(m / 10); assert(dec(m).len() >= 2); assert(dec(n).len() == 1); }
    else { dec_digits(n / 10); assert(dec(n).len() >= 2); assert(dec(m).len() == 1); }
}
proof fn dec_num(n: nat, m: nat, x: Seq<char>, y: Seq<char>)
    requires dec(n) + x == dec(m) + y, nodigit(x), nodigit(y)
    ensures n == m, x == y
{
    dec_digits(n); dec_digits(m);
    let (a, b) = (dec(n), dec(m));
    if a.len() < b.len() { assert((a + x)[a.len() as int] == b[a.len() as int]); assert((a + x)[a.len() as int] == x[0]); }
    if b.len() < a.len() { assert((b + y)[b.len() as int] == a[b.len() as int]); assert((b + y)[b.len() as int] == y[0]); }
    assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert((a + x)[i] == (b + y)[i]); } }
    dec_inj(n, m); cancel(a, x, y);
}
// ---- alias names
proof fn dec_alias(s: Seq<char>, t: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires !s.contains('"'), !t.contains('"'), s + seq!['"'] + x == t + seq!['"'] + y
    ensures s == t, x == y
{
    let (l, r) = (s + seq!['"'] + x, t + seq!['"'] + y);
    if s.len() < t.len() { assert(l[s.len() as int] == '"'); assert(r[s.len() as int] == t[s.len() as int]); assert(t.contains('"')); }
    if t.len() < s.len() { assert(r[t.len() as int] == '"'); assert(l[t.len() as int] == s[t.len() as int]); assert(s.contains('"')); }
    assert(s =~= t) by { assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(l[i] == s[i]); assert(r[i] == t[i]); } }
    cancel(s + seq!['"'], x, y);
}
// ---- spines
proof fn sstr_push(u: Seq<S>, x: S, j: nat)
    requires j <= u.len()
    ensures sstr(u.push(x), j) == sstr(u, j) + sone(x)
    decreases u.len() - j
{
    if j < u.len() { sstr_push(u, x, j + 1); assert(u.push(x)[j as int] == u[j as int]); assert(sstr(u.push(x), j) =~= sstr(u, j) + sone(x)); }
    else { assert(sstr(u.push(x), j + 1) =~= Seq::<char>::empty()); assert(sstr(u.push(x), j) =~= sstr(u, j) + sone(x)); }
}
proof fn spine(t: T)
    ensures show(t) == bstr(base(t)) + sstr(sufs(t), 0), base(t) is None ==> sufs(t).len() > 0, base(t) is Some ==> atom(base(t)->0)
    decreases t
{
    match t {
        T::Ptr(p) => { spine(*p); sstr_push(sufs(*p), S::Star, 0); assert(show(t) =~= bstr(base(t)) + sstr(sufs(t), 0)); }
        T::Fn(i, Some(o)) => { spine(*o); sstr_push(sufs(*o), S::Args(i), 0); assert(show(t) =~= bstr(base(t)) + sstr(sufs(t), 0)); }
        T::Fn(i, None) => { assert(sstr(sufs(t), 1) =~= Seq::<char>::empty()); assert(sstr(sufs(t), 0) =~= sone(S::Args(i))); assert(show(t) =~= bstr(base(t)) + sstr(sufs(t), 0)); }
        _ => { assert(show(t) =~= bstr(base(t)) + sstr(sufs(t), 0)); }
    }
}
/// base and suffixes determine the type
proof fn rebuild(a: T, b: T)
    requires base(a) == base(b), sufs(a) == sufs(b)
    ensures a == b
    decreases a
{
    spine(a); spine(b);
    match (a, b) {
        (T::Ptr(p), T::Ptr(q)) => { assert(sufs(a).drop_last() =~= sufs(*p)); assert(sufs(b).drop_last() =~= sufs(*q)); rebuild(*p, *q); }
        (T::Fn(i, Some(p)), T::Fn(k, Some(q))) => {
            assert(sufs(a).drop_last() =~= sufs(*p)); assert(sufs(b).drop_last() =~= sufs(*q));
            assert(sufs(a).last() == S::Args(i)); assert(sufs(b).last() == S::Args(k));
            rebuild(*p, *q);
        }
        (T::Fn(i, None), T::Fn(k, None)) => { assert(sufs(a)[0] == S::Args(i)); assert(sufs(b)[0] == S::Args(k)); }
        (T::Fn(i, None), T::Fn(k, Some(q))) => { spine(*q); assert(sufs(b).len() >= 2); }
        (T::Fn(i, Some(p)), T::Fn(k, None)) => { spine(*p); assert(sufs(a).len() >= 2); }
        (T::Ptr(p), T::Fn(..)) => { assert(sufs(a).last() == S::Star); assert(sufs(b).last() is Args); }
        (T::Fn(..), T::Ptr(p)) => { assert(sufs(b).last() == S::Star); assert(sufs(a).last() is Args); }
        (T::Ptr(p), _) => { assert(sufs(a).len() > 0); }
        (T::Fn(..), _) => { assert(sufs(a).len() > 0); }
        (_, T::Ptr(p)) => { assert(sufs(b).len() > 0); }
        (_, T::Fn(..)) => { assert(sufs(b).len() > 0); }
        _ => {}
    }
}
proof fn wf_spine(t: T)
    requires wf(t)
    ensures base(t) is Some ==> wf(base(t)->0), forall|j: int| 0 <= j < sufs(t).len() ==> ((#[trigger] sufs(t)[j]) is Args ==> wfs(sufs(t)[j]->Args_0))
    decreases t
{
    match t { T::Ptr(p) => { wf_spine(*p); } T::Fn(i, Some(o)) => { wf_spine(*o); } _ => {} }
}
/// the first character tells what a type starts with
pub open spec fn start(b: Option<T>, c: char) -> bool {
    match b {
        None => c == 'v',
        Some(T::Alias(_)) => c == '%', Some(T::Array(..)) => c == '[', Some(T::Double) => c == 'd', Some(T::Float) => c == 'f', Some(T::Int(_)) => c == 'i',
        Some(T::Packed(_)) => c == '<', Some(T::Struct(_)) => c == '{', Some(T::Opaque) => c == 'p', Some(T::Varargs) => c == '.', Some(T::Vector(..)) => c == '<',
        _ => false,
    }
}
proof fn brace(f: Seq<T>)
    ensures show_fields(f).len() > 0, show_fields(f)[0] == '{'
{ strlits(); assert(show_fields(f)[0] == "{"@[0]); }
proof fn first(t: T)
    ensures show(t).len() > 0, start(base(t), show(t)[0])
{
    strlits(); spine(t);
    let b = bstr(base(t));
    match base(t) {
        Some(T::Alias(s)) => { assert(b[0] == "%\""@[0]); }
        Some(T::Array(n, s)) => { assert(b[0] == "["@[0]); }
        Some(T::Vector(n, s)) => { assert(b[0] == "<"@[0]); }
        Some(T::Packed(f)) => { assert(b[0] == "<"@[0]); }
        Some(T::Struct(f)) => { brace(f); }
        Some(T::Int(n)) => { assert(b[0] == "i"@[0]); }
        _ => {}
    }
    assert(b.len() > 0 && start(base(t), b[0]));
    assert(show(t)[0] == b[0]);
}
// ---- lists, read from the left
pub open spec fn rest(s: Seq<T>, k: nat) -> Seq<char>
    decreases s.len() - k
{ if k >= s.len() { Seq::empty() } else { (if k > 0 { ", "@ } else { Seq::<char>::empty() }) + show(s[k as int]) + rest(s, k + 1) } }
proof fn list_rest(s: Seq<T>, k: nat)
    requires k <= s.len()
    ensures list(s, s.len()) == list(s, k) + rest(s, k)
    decreases s.len() - k
{
    if k < s.len() {
        list_rest(s, k + 1);
        assert(list(s, k + 1) =~= list(s, k) + (if k > 0 { ", "@ } else { Seq::<char>::empty() }) + show(s[k as int]));
        assert(list(s, k) + rest(s, k) =~= list(s, k + 1) + rest(s, k + 1));
    } else { assert(rest(s, k) =~= Seq::<char>::empty()); assert(list(s, k) + rest(s, k) =~= list(s, k)); }
}
proof fn list_is_rest(s: Seq<T>)
    ensures list(s, s.len()) == rest(s, 0)
{ list_rest(s, 0); assert(list(s, 0) + rest(s, 0) =~= rest(s, 0)); }
// ---- decoding; n bounds the length of what is decoded
proof fn dec_type(n: nat, a: T, b: T, x: Seq<char>, y: Seq<char>)
    requires wf(a), wf(b), term(x), term(y), show(a) + x == show(b) + y, show(a).len() <= n
    ensures a == b, x == y
    decreases n, 4nat, 0nat
{
    strlits(); spine(a); spine(b); wf_spine(a); wf_spine(b); first(a); first(b);
    let (u, v) = (sufs(a), sufs(b));
    let (xx, yy) = (sstr(u, 0) + x, sstr(v, 0) + y);
    assoc(bstr(base(a)), sstr(u, 0), x); assoc(bstr(base(b)), sstr(v, 0), y);
    suf_nodigit(u, 0, x); suf_nodigit(v, 0, y);
    assert((show(a) + x)[0] == show(a)[0]); assert((show(b) + y)[0] == show(b)[0]);
    assert(bstr(base(a)) + xx == bstr(base(b)) + yy);
    dec_base(n, base(a), base(b), xx, yy);
    dec_sufs(n, u, v, 0, x, y);
    assert(u =~= v);
    rebuild(a, b);
}
proof fn suf_nodigit(u: Seq<S>, j: nat, x: Seq<char>)
    requires term(x)
    ensures nodigit(sstr(u, j) + x)
{
    strlits();
    let z = sstr(u, j) + x;
    if j < u.len() { assert(sone(u[j as int]).len() > 0); assert(z[0] == sone(u[j as int])[0]); } else { assert(z =~= x); }
}
proof fn dec_base(n: nat, a: Option<T>, b: Option<T>, x: Seq<char>, y: Seq<char>)
    requires
        a is Some ==> wf(a->0) && atom(a->0), b is Some ==> wf(b->0) && atom(b->0), nodigit(x), nodigit(y), bstr(a) + x == bstr(b) + y, bstr(a).len() <= n,
    ensures a == b, x == y
    decreases n, 3nat, 0nat
{
    strlits();
    assert(bstr(a).len() > 0 && start(a, bstr(a)[0])) by { if a is Some { first(a->0); } }
    assert(bstr(b).len() > 0 && start(b, bstr(b)[0])) by { if b is Some { first(b->0); } }
    assert((bstr(a) + x)[0] == bstr(a)[0]); assert((bstr(b) + y)[0] == bstr(b)[0]);
    match (a, b) {
        (None, None) => { cancel(bstr(a), x, y); }
        (Some(T::Double), Some(T::Double)) => { cancel(bstr(a), x, y); }
        (Some(T::Float), Some(T::Float)) => { cancel(bstr(a), x, y); }
        (Some(T::Opaque), Some(T::Opaque)) => { cancel(bstr(a), x, y); }
        (Some(T::Varargs), Some(T::Varargs)) => { cancel(bstr(a), x, y); }
        (Some(T::Alias(s)), Some(T::Alias(t))) => {
            let p = seq!['%', '"'];
            assert(bstr(a) + x =~= p + (s + seq!['"'] + x)); assert(bstr(b) + y =~= p + (t + seq!['"'] + y));
            cancel(p, s + seq!['"'] + x, t + seq!['"'] + y);
            dec_alias(s, t, x, y);
        }
        (Some(T::Int(k)), Some(T::Int(m))) => {
            let p = seq!['i'];
            assert(bstr(a) + x =~= p + (dec(k) + x)); assert(bstr(b) + y =~= p + (dec(m) + y));
            cancel(p, dec(k) + x, dec(m) + y);
            dec_num(k, m, x, y);
        }
        (Some(T::Array(k, t)), Some(T::Array(m, r))) => { dec_seq(n, seq!['['], seq![']'], k, m, *t, *r, bstr(a), bstr(b), x, y); }
        (Some(T::Vector(k, t)), Some(T::Vector(m, r))) => { dec_seq(n, seq!['<'], seq!['>'], k, m, *t, *r, bstr(a), bstr(b), x, y); }
        (Some(T::Packed(f)), Some(T::Packed(g))) => {
            let p = seq!['<'];
            assert(bstr(a) + x =~= p + (show_fields(f) + (seq!['>'] + x))); assert(bstr(b) + y =~= p + (show_fields(g) + (seq!['>'] + y)));
            cancel(p, show_fields(f) + (seq!['>'] + x), show_fields(g) + (seq!['>'] + y));
            dec_fields((n - 1) as nat, f, g, seq!['>'] + x, seq!['>'] + y);
            cancel(seq!['>'], x, y);
        }
        (Some(T::Struct(f)), Some(T::Struct(g))) => { dec_fields(n, f, g, x, y); }
        (Some(T::Packed(f)), Some(T::Vector(m, r))) => { dec_digits(m); brace(f); assert((bstr(a) + x)[1] == show_fields(f)[0]); assert((bstr(b) + y)[1] == dec(m)[0]); }
        (Some(T::Vector(m, r)), Some(T::Packed(f))) => { dec_digits(m); brace(f); assert((bstr(b) + y)[1] == show_fields(f)[0]); assert((bstr(a) + x)[1] == dec(m)[0]); }
        _ => { assert(false); }
    }
}
proof fn dec_seq(n: nat, o: Seq<char>, c: Seq<char>, k: nat, m: nat, t: T, r: T, a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires
        wf(t), wf(r), o.len() == 1, c.len() == 1, c[0] == ']' || c[0] == '>', a == o + dec(k) + " x "@ + show(t) + c, b == o + dec(m) + " x "@ + show(r) + c, a + x == b + y, a.len() <= n,
    ensures k == m, t == r, x == y
    decreases n, 2nat, 0nat
{
    strlits();
    let s = seq![' ', 'x', ' '];
    assert(a + x =~= o + (dec(k) + (s + (show(t) + (c + x))))); assert(b + y =~= o + (dec(m) + (s + (show(r) + (c + y)))));
    cancel(o, dec(k) + (s + (show(t) + (c + x))), dec(m) + (s + (show(r) + (c + y))));
    dec_num(k, m, s + (show(t) + (c + x)), s + (show(r) + (c + y)));
    cancel(s, show(t) + (c + x), show(r) + (c + y));
    dec_type((n - 1) as nat, t, r, c + x, c + y);
    cancel(c, x, y);
}
proof fn dec_fields(n: nat, f: Seq<T>, g: Seq<T>, x: Seq<char>, y: Seq<char>)
    requires wfs(f), wfs(g), show_fields(f) + x == show_fields(g) + y, show_fields(f).len() <= n
    ensures f == g, x == y
    decreases n, 2nat, 0nat
{
    strlits(); list_is_rest(f); list_is_rest(g);
    let p = seq!['{'];
    let e1: Seq<char> = if f.len() > 0 { seq![' '] } else { Seq::empty() };
    let e2: Seq<char> = if g.len() > 0 { seq![' '] } else { Seq::empty() };
    let c = seq!['}'];
    assert(show_fields(f) + x =~= p + (rest(f, 0) + (e1 + c + x))); assert(show_fields(g) + y =~= p + (rest(g, 0) + (e2 + c + y)));
    cancel(p, rest(f, 0) + (e1 + c + x), rest(g, 0) + (e2 + c + y));
    assert(rest(f, 0).len() <= n - 1);
    dec_list((n - 1) as nat, f, g, 0, e1 + c + x, e2 + c + y);
    assert(f =~= g);
    cancel(e1 + c, x, y);
}
proof fn dec_list(n: nat, s: Seq<T>, t: Seq<T>, k: nat, x: Seq<char>, y: Seq<char>)
    requires wfs(s), wfs(t), close(x), close(y), k <= s.len(), k <= t.len(), rest(s, k) + x == rest(t, k) + y, rest(s, k).len() <= n
    ensures s.len() == t.len(), forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == t[i], x == y
    decreases n, 5nat, s.len() - k
{
    strlits();
    let (l, r) = (rest(s, k) + x, rest(t, k) + y);
    if k < s.len() { first(s[k as int]); spine(s[k as int]); }
    if k < t.len() { first(t[k as int]); spine(t[k as int]); }
    if k < s.len() && k < t.len() {
        let p: Seq<char> = if k > 0 { ", "@ } else { Seq::empty() };
        let (x2, y2) = (rest(s, k + 1) + x, rest(t, k + 1) + y);
        assert(l =~= p + (show(s[k as int]) + x2)); assert(r =~= p + (show(t[k as int]) + y2));
        cancel(p, show(s[k as int]) + x2, show(t[k as int]) + y2);
        assert(term(x2)) by { if k + 1 < s.len() { assert(x2[0] == ','); } else { assert(x2 =~= x); } }
        assert(term(y2)) by { if k + 1 < t.len() { assert(y2[0] == ','); } else { assert(y2 =~= y); } }
        assert(wf(s[k as int]) && wf(t[k as int]));
        assert(rest(s, k).len() == p.len() + show(s[k as int]).len() + rest(s, k + 1).len());
        assert(show(s[k as int]).len() <= n);
        dec_type(n, s[k as int], t[k as int], x2, y2);
        assert(rest(s, k + 1).len() < rest(s, k).len());
        dec_list((n - 1) as nat, s, t, k + 1, x, y);
    } else if k < s.len() {
        assert(r =~= y);
        if k > 0 { assert(l[0] == ','); } else { assert(l[0] == show(s[k as int])[0]); }
        assert(false);
    } else if k < t.len() {
        assert(l =~= x);
        if k > 0 { assert(r[0] == ','); } else { assert(r[0] == show(t[k as int])[0]); }
        assert(false);
    } else { assert(l =~= x); assert(r =~= y); }
}
proof fn dec_sufs(n: nat, u: Seq<S>, v: Seq<S>, j: nat, x: Seq<char>, y: Seq<char>)
    requires
        term(x), term(y), j <= u.len(), j <= v.len(), sstr(u, j) + x == sstr(v, j) + y, sstr(u, j).len() <= n,
        forall|i: int| 0 <= i < u.len() ==> ((#[trigger] u[i]) is Args ==> wfs(u[i]->Args_0)), forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]) is Args ==> wfs(v[i]->Args_0)),
    ensures u.len() == v.len(), forall|i: int| j <= i < u.len() ==> #[trigger] u[i] == v[i], x == y
    decreases n, 2nat, 0nat
{
    strlits();
    let (l, r) = (sstr(u, j) + x, sstr(v, j) + y);
    if j < u.len() && j < v.len() {
        let (x2, y2) = (sstr(u, j + 1) + x, sstr(v, j + 1) + y);
        let (a, b) = (u[j as int], v[j as int]);
        assert(l =~= sone(a) + x2); assert(r =~= sone(b) + y2);
        assert(l[0] == sone(a)[0]); assert(r[0] == sone(b)[0]);
        match (a, b) {
            (S::Star, S::Star) => { cancel(sone(a), x2, y2); }
            (S::Args(i), S::Args(k)) => {
                list_is_rest(i); list_is_rest(k);
                let (p, c) = (seq![' ', '('], seq![')']);
                assert(sone(a) + x2 =~= p + (rest(i, 0) + (c + x2))); assert(sone(b) + y2 =~= p + (rest(k, 0) + (c + y2)));
                cancel(p, rest(i, 0) + (c + x2), rest(k, 0) + (c + y2));
                assert(rest(i, 0).len() <= n - 1);
                dec_list((n - 1) as nat, i, k, 0, c + x2, c + y2);
                assert(i =~= k);
                cancel(c, x2, y2);
            }
            _ => { assert(false); }
        }
        assert(sstr(u, j + 1).len() < sstr(u, j).len());
        dec_sufs((n - 1) as nat, u, v, j + 1, x, y);
    } else if j < u.len() {
        assert(r =~= y);
        assert(l[0] == sone(u[j as int])[0]);
        if u[j as int] is Args { assert(l[1] == '('); }
        assert(false);
    } else if j < v.len() {
        assert(l =~= x);
        assert(r[0] == sone(v[j as int])[0]);
        if v[j as int] is Args { assert(r[1] == '('); }
        assert(false);
    } else { assert(l =~= x); assert(r =~= y); }
}
/// two different signatures never have the same label //#C12
proof fn labels_injective(i1: Seq<T>, o1: Option<Box<T>>, i2: Seq<T>, o2: Option<Box<T>>)
    requires wf(T::Fn(i1, o1)), wf(T::Fn(i2, o2)), show_sig(i1, o1) + "*"@ == show_sig(i2, o2) + "*"@
    ensures i1 == i2, o1 == o2
{
    strlits();
    let (a, b) = (T::Fn(i1, o1), T::Fn(i2, o2));
    assert(show(a) == show_sig(i1, o1)); assert(show(b) == show_sig(i2, o2));
    assert((show(a) + "*"@).drop_last() =~= show(a)); assert((show(b) + "*"@).drop_last() =~= show(b));
    assert(show(a) + Seq::<char>::empty() =~= show(a)); assert(show(b) + Seq::<char>::empty() =~= show(b));
    dec_type(show(a).len(), a, b, Seq::empty(), Seq::empty());
}
