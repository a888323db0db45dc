// ------------------------------------------------------------------ LLVM-IR, as far as it is read
// rel(i, r, v): the text i is the text of v followed by r
pub open spec fn is_blank(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dig(c: char) -> nat { if is_dig(c) { (c as int - '0' as int) as nat } else { 0 } }
/// the number a string of digits stands for
pub open spec fn num(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + dig(s.last()) } }
pub uninterp spec fn alnum(c: char) -> bool; // char::is_alphanumeric
pub uninterp spec fn alpha(c: char) -> bool; // char::is_alphabetic
pub open spec fn id_char(c: char) -> bool { alnum(c) || "-$._"@.contains(c) }
pub open spec fn word_char(c: char) -> bool { alpha(c) || c == '_' }
pub open spec fn ends_line(r: Seq<char>) -> bool { r.len() == 0 || r[0] == '\n' || (r.len() > 1 && r[0] == '\r' && r[1] == '\n') }
pub open spec fn ov(s: Option<&VxStr>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
// ---- words
#[verifier::opaque]
pub open spec fn g_lit(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { i == w + r }
#[verifier::opaque]
pub open spec fn g_chr(i: Seq<char>, r: Seq<char>, c: char) -> bool { i == seq![c] + r }
/// blanks, at least one
#[verifier::opaque]
pub open spec fn g_sp(i: Seq<char>, r: Seq<char>) -> bool { exists|w: Seq<char>| #[trigger] (w + r) == i && w.len() > 0 && forall|k: int| 0 <= k < w.len() ==> is_blank(#[trigger] w[k]) }
/// blanks, if any
#[verifier::opaque]
pub open spec fn g_sp0(i: Seq<char>, r: Seq<char>) -> bool { exists|w: Seq<char>| #[trigger] (w + r) == i && forall|k: int| 0 <= k < w.len() ==> is_blank(#[trigger] w[k]) }
/// all the digits there are, at least one
#[verifier::opaque]
pub open spec fn g_dig(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { i == w + r && w.len() > 0 && (forall|k: int| 0 <= k < w.len() ==> is_dig(#[trigger] w[k])) && (r.len() > 0 ==> !is_dig(r[0])) }
/// the end of a line
#[verifier::opaque]
pub open spec fn g_eol(i: Seq<char>, r: Seq<char>) -> bool { i == seq!['\n'] + r || i == seq!['\r', '\n'] + r }
/// the rest of the line
#[verifier::opaque]
pub open spec fn g_line(i: Seq<char>, r: Seq<char>) -> bool { exists|w: Seq<char>| #[trigger] (w + r) == i && ends_line(r) && forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] != '\n' && w[k] != '\r' }
/// everything up to a double quote
#[verifier::opaque]
pub open spec fn g_upto(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { i == w + r && r.len() > 0 && r[0] == '"' && forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] != '"' }
/// everything up to white space
#[verifier::opaque]
pub open spec fn g_tok(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { i == w + r && w.len() > 0 && (forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] != ' ' && w[k] != '\t' && w[k] != '\r' && w[k] != '\n') && (r.len() > 0 ==> is_blank(r[0]) || r[0] == '\r' || r[0] == '\n') }
/// an identifier: all its characters, the first no digit
pub open spec fn g_ident(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { i == w + r && w.len() > 0 && (forall|k: int| 0 <= k < w.len() ==> id_char(#[trigger] w[k])) && (r.len() > 0 ==> !id_char(r[0])) && !is_dig(w[0]) }
pub open spec fn g_string(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| g_chr(i, a, '"') && g_upto(a, b, w) && g_chr(b, r, '"') }
pub open spec fn g_name(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { g_string(i, r, w) || g_ident(i, r, w) || g_dig(i, r, w) }
pub open spec fn g_function(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { exists|a: Seq<char>| g_chr(i, a, '@') && g_name(a, r, w) }
pub open spec fn g_alias(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { exists|a: Seq<char>| g_chr(i, a, '%') && g_name(a, r, w) }
/// a global: its name, none if it is only numbered
pub open spec fn g_global(i: Seq<char>, r: Seq<char>, n: Option<Seq<char>>) -> bool {
    exists|a: Seq<char>| g_chr(i, a, '@') && match n { Some(w) => g_string(a, r, w) || g_ident(a, r, w), None => exists|w: Seq<char>| g_dig(a, r, w) }
}
pub open spec fn g_local(i: Seq<char>, r: Seq<char>) -> bool {
    exists|a: Seq<char>| g_chr(i, a, '%') && ((exists|w: Seq<char>| g_dig(a, r, w)) || (exists|w: Seq<char>| g_ident(a, r, w)))
}
pub open spec fn g_remark(i: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>| g_chr(i, a, ';') && g_line(a, r) }
pub open spec fn g_comma(i: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>| g_chr(i, a, ',') && g_sp(a, r) }
// ---- types
pub open spec fn g_type(i: Seq<char>, r: Seq<char>, t: T) -> bool
    decreases t, 0nat
{
    match t {
        T::Alias(n) => g_alias(i, r, n),
        T::Array(n, e) => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, f: Seq<char>, g: Seq<char>, w: Seq<char>| #[trigger] g_chr(i, a, '[') && #[trigger] g_dig(a, b, w) && n == num(w) && #[trigger] g_sp(b, c) && #[trigger] g_chr(c, d, 'x') && #[trigger] g_sp(d, f) && g_type(f, g, *e) && #[trigger] g_chr(g, r, ']'),
        T::Vector(n, e) => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, f: Seq<char>, g: Seq<char>, w: Seq<char>| #[trigger] g_chr(i, a, '<') && #[trigger] g_dig(a, b, w) && n == num(w) && #[trigger] g_sp(b, c) && #[trigger] g_chr(c, d, 'x') && #[trigger] g_sp(d, f) && g_type(f, g, *e) && #[trigger] g_chr(g, r, '>'),
        T::Double => g_lit(i, r, "double"@),
        T::Float => g_lit(i, r, "float"@),
        T::Opaque => g_lit(i, r, "ptr"@),
        T::Varargs => g_lit(i, r, "..."@),
        T::Int(n) => exists|a: Seq<char>, w: Seq<char>| g_chr(i, a, 'i') && g_dig(a, r, w) && n == num(w),
        T::Struct(f) => g_fields(i, r, f),
        T::Packed(f) => exists|a: Seq<char>, b: Seq<char>| #[trigger] g_chr(i, a, '<') && g_fields(a, b, f) && #[trigger] g_chr(b, r, '>'),
        T::Ptr(e) => exists|a: Seq<char>| g_type(i, a, *e) && #[trigger] g_chr(a, r, '*'),
        T::Fn(f, o) => exists|a: Seq<char>, b: Seq<char>| #[trigger] g_sp(a, b) && g_inputs(b, r, f) && match o { Some(e) => g_type(i, a, *e), None => g_lit(i, a, "void"@) },
    }
}
pub open spec fn g_list(i: Seq<char>, r: Seq<char>, s: Seq<T>, k: nat) -> bool
    decreases s, k
{
    if k == 0 || k > s.len() { i == r } else if k == 1 { g_type(i, r, s[0]) } else { exists|a: Seq<char>, b: Seq<char>| g_list(i, a, s, (k - 1) as nat) && #[trigger] g_comma(a, b) && g_type(b, r, s[k - 1]) }
}
pub open spec fn g_fields(i: Seq<char>, r: Seq<char>, s: Seq<T>) -> bool
    decreases s, s.len() + 1
{ exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] g_chr(i, a, '{') && #[trigger] g_sp0(a, b) && g_list(b, c, s, s.len()) && #[trigger] g_sp0(c, d) && g_chr(d, r, '}') }
pub open spec fn g_inputs(i: Seq<char>, r: Seq<char>, s: Seq<T>) -> bool
    decreases s, s.len() + 1
{ exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] g_chr(i, a, '(') && #[trigger] g_sp0(a, b) && g_list(b, c, s, s.len()) && #[trigger] g_chr(c, r, ')') }
pub open spec fn next_type(before: nat, i: Seq<char>, r: Seq<char>, t: T) -> bool { if before == 0 { g_type(i, r, t) } else { exists|b: Seq<char>, c: Seq<char>| #[trigger] g_chr(i, b, ',') && #[trigger] g_sp(b, c) && g_type(c, r, t) } }
pub proof fn list_same(i: Seq<char>, r: Seq<char>, s: Seq<T>, u: Seq<T>, k: nat)
    requires k <= s.len(), k <= u.len(), forall|j: int| 0 <= j < k ==> s[j] == u[j], g_list(i, r, s, k)
    ensures g_list(i, r, u, k)
    decreases k
{
    if k >= 2 {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| g_list(i, a, s, (k - 1) as nat) && #[trigger] g_comma(a, b) && g_type(b, r, s[k - 1]);
        list_same(i, a, s, u, (k - 1) as nat);
        assert(g_list(i, a, u, (k - 1) as nat) && g_comma(a, b) && g_type(b, r, u[k - 1]));
    }
}
pub proof fn list_push(i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<Type>, v: Seq<Type>)
    requires v.len() == v0.len() + 1, v0 =~= v.drop_last(), g_list(i, a, ts(v0), v0.len()), next_type(v0.len(), a, r, v.last().t())
    ensures g_list(i, r, ts(v), v.len())
{
    ts_at(v0); ts_at(v);
    assert forall|j: int| 0 <= j < v0.len() implies ts(v0)[j] == ts(v)[j] by { assert(v0[j] == v[j]); }
    list_same(i, a, ts(v0), ts(v), v0.len());
    assert(ts(v)[v.len() - 1] == v.last().t());
    if v0.len() > 0 {
        let (d, b) = choose|d: Seq<char>, b: Seq<char>| #[trigger] g_chr(a, d, ',') && #[trigger] g_sp(d, b) && g_type(b, r, v.last().t());
        assert(g_list(i, a, ts(v), (v.len() - 1) as nat) && g_comma(a, b) && g_type(b, r, ts(v)[v.len() - 1]));
    }
}
/// a return type: none for `void`
pub open spec fn g_ret(i: Seq<char>, r: Seq<char>, o: Option<Box<T>>) -> bool { match o { Some(t) => g_type(i, r, *t), None => g_lit(i, r, "void"@) } }
pub open spec fn g_some_ret(i: Seq<char>, r: Seq<char>) -> bool { g_lit(i, r, "void"@) || exists|t: T| g_type(i, r, t) }
// ---- attributes
/// words that begin a type, an operation or an item: no attributes
pub open spec fn reserved(w: Seq<char>) -> bool { w == "double"@ || w == "float"@ || w == "void"@ || w == "ptr"@ || w == "bitcast"@ || w == "getelementptr"@ || w == "alias"@ || w == "global"@ || w == "constant"@ }
pub open spec fn g_word(i: Seq<char>, r: Seq<char>, w: Seq<char>) -> bool { i == w + r && w.len() > 0 && (forall|k: int| 0 <= k < w.len() ==> word_char(#[trigger] w[k])) && (r.len() > 0 ==> !word_char(r[0])) }
pub open spec fn g_attr(i: Seq<char>, r: Seq<char>) -> bool { exists|w: Seq<char>, a: Seq<char>| i == #[trigger] (w + a) && g_word(i, a, w) && !reserved(w) && (a == r || g_attr_arg(a, r)) }
/// `(8)`, `(i8)`, ` 8`
pub open spec fn g_attr_arg(i: Seq<char>, r: Seq<char>) -> bool {
    ||| exists|a: Seq<char>, b: Seq<char>, w: Seq<char>| g_chr(i, a, '(') && g_dig(a, b, w) && g_chr(b, r, ')')
    ||| exists|a: Seq<char>, b: Seq<char>, t: T| g_chr(i, a, '(') && g_type(a, b, t) && g_chr(b, r, ')')
    ||| exists|a: Seq<char>, w: Seq<char>| g_sp(i, a) && g_dig(a, r, w)
}
// ---- repetitions
pub enum Rep { AttrSp, SpAttr, IdentSp, Eol, Index }
pub open spec fn one(k: Rep, i: Seq<char>, r: Seq<char>) -> bool {
    match k {
        Rep::AttrSp => exists|a: Seq<char>| g_attr(i, a) && g_sp(a, r),
        Rep::SpAttr => exists|a: Seq<char>| g_sp(i, a) && g_attr(a, r),
        Rep::IdentSp => exists|a: Seq<char>, w: Seq<char>| g_ident(i, a, w) && g_sp(a, r),
        Rep::Eol => g_eol(i, r),
        Rep::Index => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, t: T, w: Seq<char>| g_comma(i, a) && #[trigger] g_type(a, b, t) && #[trigger] g_sp(b, c) && #[trigger] g_dig(c, r, w),
    }
}
pub open spec fn many(k: Rep, n: nat, i: Seq<char>, r: Seq<char>) -> bool
    decreases n
{ if n == 0 { i == r } else { exists|a: Seq<char>| many(k, (n - 1) as nat, i, a) && #[trigger] one(k, a, r) } }
pub open spec fn any(k: Rep, i: Seq<char>, r: Seq<char>) -> bool { exists|n: nat| many(k, n, i, r) }
pub proof fn many_step(k: Rep, n: nat, i: Seq<char>, a: Seq<char>, r: Seq<char>)
    requires many(k, n, i, a), one(k, a, r)
    ensures many(k, n + 1, i, r)
{ assert(many(k, (n + 1 - 1) as nat, i, a) && one(k, a, r)); }
// ---- parameters and arguments
pub enum El { Param, Arg, Decl }
pub open spec fn el(k: El, i: Seq<char>, r: Seq<char>, t: T) -> bool {
    match k {
        El::Param => exists|a: Seq<char>, b: Seq<char>, m: nat| #[trigger] g_type(i, a, t) && #[trigger] many(Rep::SpAttr, m, a, b) && g_param_name(b, r),
        El::Arg => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, m: nat| #[trigger] g_type(i, a, t) && #[trigger] g_sp(a, b) && #[trigger] many(Rep::AttrSp, m, b, c) && g_value(c, r),
        El::Decl => exists|a: Seq<char>, m: nat| #[trigger] g_type(i, a, t) && #[trigger] many(Rep::SpAttr, m, a, r),
    }
}
pub open spec fn g_param_name(i: Seq<char>, r: Seq<char>) -> bool {
    ||| i == r
    ||| exists|a: Seq<char>, w: Seq<char>| #[trigger] g_sp(i, a) && #[trigger] g_alias(a, r, w)
    ||| exists|a: Seq<char>| #[trigger] g_sp(i, a) && #[trigger] g_local(a, r)
    ||| exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, w: Seq<char>| #[trigger] g_sp(i, a) && #[trigger] g_alias(a, b, w) && #[trigger] g_sp(b, c) && #[trigger] g_local(c, r)
}
pub open spec fn g_value(i: Seq<char>, r: Seq<char>) -> bool {
    ||| exists|n: Option<Seq<char>>| g_bitcast(i, r, n)
    ||| exists|n: Option<Seq<char>>| g_gep(i, r, n)
    ||| g_local(i, r)
    ||| exists|n: Seq<char>| g_function(i, r, n)
    ||| g_lit(i, r, "null"@) || g_lit(i, r, "undef"@) || g_lit(i, r, "true"@) || g_lit(i, r, "false"@)
    ||| exists|a: Seq<char>, w: Seq<char>| (i == a || g_chr(i, a, '-')) && #[trigger] g_dig(a, r, w)
}
/// constant operations on a global, and which
pub open spec fn g_gep(i: Seq<char>, r: Seq<char>, n: Option<Seq<char>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>| #[trigger] g_lit(i, a, "getelementptr"@) && #[trigger] g_sp(a, b) && g_inbounds(b, c) && #[trigger] g_chr(c, d, '(') && g_gep_in(d, e, n) && #[trigger] g_chr(e, r, ')')
}
pub open spec fn g_inbounds(i: Seq<char>, r: Seq<char>) -> bool { i == r || exists|a: Seq<char>| g_lit(i, a, "inbounds"@) && g_sp(a, r) }
pub open spec fn g_gep_in(i: Seq<char>, r: Seq<char>, n: Option<Seq<char>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, t: T, u: T, m: nat| #[trigger] g_type(i, a, t) && g_comma(a, b) && #[trigger] g_type(b, c, u) && #[trigger] g_sp(c, d) && #[trigger] g_global(d, e, n) && #[trigger] many(Rep::Index, m, e, r)
}
pub open spec fn g_bitcast(i: Seq<char>, r: Seq<char>, n: Option<Seq<char>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] g_lit(i, a, "bitcast"@) && #[trigger] g_sp(a, b) && #[trigger] g_chr(b, c, '(') && g_bitcast_in(c, d, n) && #[trigger] g_chr(d, r, ')')
}
pub open spec fn g_bitcast_in(i: Seq<char>, r: Seq<char>, n: Option<Seq<char>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, t: T, u: T| #[trigger] g_type(i, a, t) && #[trigger] g_sp(a, b) && (g_global(b, c, n) || g_gep(b, c, n)) && #[trigger] g_sp(c, d) && #[trigger] g_lit(d, e, "to"@) && #[trigger] g_sp(e, f) && #[trigger] g_type(f, r, u)
}
pub open spec fn g_els(k: El, i: Seq<char>, r: Seq<char>, s: Seq<T>) -> bool
    decreases s.len()
{
    if s.len() == 0 { i == r } else { exists|a: Seq<char>| g_els(k, i, a, s.drop_last()) && #[trigger] next_el(k, (s.len() - 1) as nat, a, r, s.last()) }
}
pub open spec fn next_el(k: El, before: nat, i: Seq<char>, r: Seq<char>, t: T) -> bool { if before == 0 { el(k, i, r, t) } else { exists|b: Seq<char>, c: Seq<char>| #[trigger] g_chr(i, b, ',') && #[trigger] g_sp(b, c) && el(k, c, r, t) } }
pub proof fn els_push(k: El, i: Seq<char>, a: Seq<char>, r: Seq<char>, v0: Seq<Type>, v: Seq<Type>)
    requires v.len() == v0.len() + 1, v0 =~= v.drop_last(), g_els(k, i, a, ts(v0)), next_el(k, v0.len(), a, r, v.last().t())
    ensures g_els(k, i, r, ts(v))
{
    ts_at(v0); ts_at(v);
    assert(ts(v).drop_last() =~= ts(v0)) by { assert forall|j: int| 0 <= j < v0.len() implies ts(v0)[j] == ts(v)[j] by { assert(v0[j] == v[j]); } }
    assert(ts(v).last() == v.last().t());
    assert(next_el(k, (ts(v).len() - 1) as nat, a, r, ts(v).last()));
}
// ---- statements
pub open spec fn g_tail(i: Seq<char>, r: Seq<char>) -> bool { i == r || exists|a: Seq<char>| g_lit(i, a, "tail"@) && g_sp(a, r) }
/// `tail call `, `call `, `invoke `
pub open spec fn g_call(i: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, w: Seq<char>| g_tail(i, a) && #[trigger] g_lit(a, b, w) && (w == "call"@ || w == "invoke"@) && #[trigger] g_sp(b, r) }
pub open spec fn g_asm(i: Seq<char>, r: Seq<char>, s: Seq<char>) -> bool {
    ||| exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, t: T| g_call(i, a) && #[trigger] g_type(a, b, t) && #[trigger] g_sp(b, c) && #[trigger] g_lit(c, d, "asm"@) && g_asm_text(d, r, s)
    ||| exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| g_call(i, a) && #[trigger] g_lit(a, b, "void"@) && #[trigger] g_sp(b, c) && #[trigger] g_lit(c, d, "asm"@) && g_asm_text(d, r, s)
}
pub open spec fn g_asm_text(i: Seq<char>, r: Seq<char>, s: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, m: nat| #[trigger] g_sp(i, a) && #[trigger] many(Rep::IdentSp, m, a, b) && #[trigger] g_string(b, c, s) && #[trigger] g_line(c, r)
}
pub open spec fn g_bitcast_call(i: Seq<char>, r: Seq<char>, n: Option<Seq<char>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, m: nat| g_call(i, a) && #[trigger] many(Rep::AttrSp, m, a, b) && g_some_ret(b, c) && #[trigger] g_sp(c, d) && #[trigger] g_bitcast(d, e, n) && #[trigger] g_line(e, r)
}
pub open spec fn g_direct_call(i: Seq<char>, r: Seq<char>, n: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, m: nat| g_call(i, a) && #[trigger] many(Rep::AttrSp, m, a, b) && g_some_ret(b, c) && #[trigger] g_sp(c, d) && #[trigger] g_function(d, e, n) && #[trigger] g_chr(e, f, '(') && #[trigger] g_line(f, r)
}
/// the signature of an indirect call: the argument types and the return type, unless the type of
/// the callee is written out
pub open spec fn called_sig(o: Option<Box<T>>, args: Seq<T>) -> (Seq<T>, Option<Box<T>>) {
    match o { Some(t) => match *t { T::Fn(i, p) => (i, p), _ => (args, o) }, None => (args, o) }
}
pub open spec fn g_indirect_call(i: Seq<char>, r: Seq<char>, ins: Seq<T>, out: Option<Box<T>>) -> bool {
    ||| exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>, m: nat, args: Seq<T>, t: T| g_tail(i, a) && #[trigger] many(Rep::AttrSp, m, a, b) && #[trigger] g_type(b, c, t) && #[trigger] g_sp(c, d) && #[trigger] g_local(d, e) && #[trigger] g_chr(e, f, '(') && #[trigger] g_els(El::Arg, f, g, args) && #[trigger] g_chr(g, h, ')') && #[trigger] g_line(h, r) && (ins, out) == called_sig(Some(Box::new(t)), args)
    ||| exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>, m: nat| g_tail(i, a) && #[trigger] many(Rep::AttrSp, m, a, b) && #[trigger] g_lit(b, c, "void"@) && #[trigger] g_sp(c, d) && #[trigger] g_local(d, e) && #[trigger] g_chr(e, f, '(') && #[trigger] g_els(El::Arg, f, g, ins) && #[trigger] g_chr(g, h, ')') && #[trigger] g_line(h, r) && out is None
}
/// words, none of which is `call` or `invoke`
pub open spec fn g_other(i: Seq<char>, r: Seq<char>, n: nat) -> bool
    decreases n
{ if n == 0 { i == r } else { exists|a: Seq<char>| g_other(i, a, (n - 1) as nat) && #[trigger] next_word((n - 1) as nat, a, r) } }
pub open spec fn g_plain(i: Seq<char>, r: Seq<char>) -> bool { exists|w: Seq<char>| g_tok(i, r, w) && w != "call"@ && w != "invoke"@ }
pub open spec fn next_word(before: nat, i: Seq<char>, r: Seq<char>) -> bool { if before == 0 { g_plain(i, r) } else { exists|b: Seq<char>| #[trigger] g_sp(i, b) && g_plain(b, r) } }
pub open spec fn g_others(i: Seq<char>, r: Seq<char>) -> bool { exists|n: nat| #[trigger] g_other(i, r, n) && n > 0 }
/// what stands behind the blanks (and the assigned name)
pub open spec fn g_op(i: Seq<char>, r: Seq<char>, s: Stmt) -> bool {
    match s {
        Stmt::Asm(t) => g_asm(i, r, t@),
        Stmt::BitcastCall(n) => g_bitcast_call(i, r, ov(n)),
        Stmt::DirectCall(n) => g_direct_call(i, r, n@),
        Stmt::IndirectCall(sig) => g_indirect_call(i, r, sig.ins(), sig.out()),
        Stmt::Other => g_others(i, r),
        Stmt::Comment | Stmt::Label => false,
    }
}
pub open spec fn g_assign(i: Seq<char>, r: Seq<char>, s: Stmt) -> bool { exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| #[trigger] g_local(i, a) && #[trigger] g_sp(a, b) && #[trigger] g_chr(b, c, '=') && #[trigger] g_sp(c, d) && #[trigger] g_op(d, r, s) }
pub open spec fn g_label(i: Seq<char>, r: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>| ((exists|w: Seq<char>| g_ident(i, a, w)) || (exists|w: Seq<char>| g_string(i, a, w)) || (exists|w: Seq<char>| g_dig(i, a, w))) && #[trigger] g_chr(a, b, ':') && (b == r || exists|c: Seq<char>| g_sp(b, c) && g_remark(c, r))
}
pub open spec fn g_stmt(i: Seq<char>, r: Seq<char>, s: Stmt) -> bool {
    match s {
        Stmt::Comment => g_remark(i, r),
        Stmt::Label => g_label(i, r),
        _ => exists|a: Seq<char>| #[trigger] g_sp(i, a) && (g_op(a, r, s) || g_assign(a, r, s)),
    }
}
/// one statement after another, a line each
pub open spec fn g_stmts(i: Seq<char>, r: Seq<char>, s: Seq<Stmt>) -> bool
    decreases s.len()
{ if s.len() == 0 { i == r } else { exists|a: Seq<char>| g_stmts(i, a, s.drop_last()) && #[trigger] next_stmt((s.len() - 1) as nat, a, r, s.last()) } }
pub open spec fn next_stmt(before: nat, i: Seq<char>, r: Seq<char>, s: Stmt) -> bool { if before == 0 { g_stmt(i, r, s) } else { exists|b: Seq<char>, m: nat| #[trigger] many(Rep::Eol, m, i, b) && m > 0 && g_stmt(b, r, s) } }
// ---- items
pub open spec fn g_head(i: Seq<char>, r: Seq<char>, kw: Seq<char>, n: Seq<char>, o: Option<Box<T>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, m: nat| #[trigger] g_lit(i, a, kw) && #[trigger] g_sp(a, b) && #[trigger] many(Rep::AttrSp, m, b, c) && g_ret(c, d, o) && #[trigger] g_sp(d, e) && #[trigger] g_function(e, f, n) && #[trigger] g_chr(f, r, '(')
}
pub open spec fn g_head0(i: Seq<char>, r: Seq<char>, kw: Seq<char>, n: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, m: nat| #[trigger] g_lit(i, a, kw) && #[trigger] g_sp(a, b) && #[trigger] many(Rep::AttrSp, m, b, c) && g_some_ret(c, d) && #[trigger] g_sp(d, e) && #[trigger] g_function(e, f, n) && #[trigger] g_chr(f, r, '(')
}
pub open spec fn g_define(i: Seq<char>, r: Seq<char>, n: Seq<char>, ins: Seq<T>, out: Option<Box<T>>, s: Seq<Stmt>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, e: Seq<char>, f: Seq<char>| g_head(i, a, "define"@, n, out) && #[trigger] g_els(El::Param, a, b, ins) && #[trigger] g_chr(b, c, ')') && #[trigger] g_line(c, e) && #[trigger] g_eol(e, f) && g_body(f, r, s)
}
pub open spec fn g_body(i: Seq<char>, r: Seq<char>, s: Seq<Stmt>) -> bool {
    s.len() > 0 && exists|a: Seq<char>, b: Seq<char>| #[trigger] g_stmts(i, a, s) && (a == b || g_eol(a, b)) && #[trigger] g_lit(b, r, "}"@)
}
pub open spec fn g_declare(i: Seq<char>, r: Seq<char>, d: Declare) -> bool {
    match d.sig {
        None => starts(d.name@, "llvm."@) && g_declare0(i, r, d.name@),
        Some(s) => !starts(d.name@, "llvm."@) && g_declare1(i, r, d.name@, s.ins(), s.out()),
    }
}
pub open spec fn g_declare0(i: Seq<char>, r: Seq<char>, n: Seq<char>) -> bool { exists|a: Seq<char>| g_head0(i, a, "declare"@, n) && #[trigger] g_line(a, r) }
pub open spec fn g_declare1(i: Seq<char>, r: Seq<char>, n: Seq<char>, ins: Seq<T>, out: Option<Box<T>>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| g_head(i, a, "declare"@, n, out) && #[trigger] g_els(El::Decl, a, b, ins) && #[trigger] g_chr(b, c, ')') && #[trigger] g_line(c, r)
}
pub open spec fn g_alias_item(i: Seq<char>, r: Seq<char>, n: Seq<char>, m: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, k: nat| #[trigger] g_function(i, a, n) && #[trigger] g_sp(a, b) && #[trigger] g_chr(b, c, '=') && #[trigger] g_sp(c, d) && #[trigger] many(Rep::AttrSp, k, d, e) && #[trigger] g_lit(e, f, "alias"@) && g_aliasee(f, r, m)
}
pub open spec fn g_aliasee(i: Seq<char>, r: Seq<char>, m: Seq<char>) -> bool {
    exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, t: T, u: T| #[trigger] g_sp(i, a) && #[trigger] g_type(a, b, t) && #[trigger] g_sp0(b, c) && g_comma(c, d) && #[trigger] g_type(d, e, u) && #[trigger] g_sp(e, f) && #[trigger] g_function(f, r, m)
}
pub open spec fn g_target(i: Seq<char>, r: Seq<char>) -> bool { (exists|a: Seq<char>| #[trigger] g_lit(i, a, "datalayout"@) && g_setting(a, r)) || (exists|a: Seq<char>| #[trigger] g_lit(i, a, "triple"@) && g_setting(a, r)) }
/// `kw = ...`
pub open spec fn g_setting(i: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| g_sp(i, a) && g_chr(a, b, '=') && g_line(b, r) }
pub open spec fn g_item(i: Seq<char>, r: Seq<char>, t: Item) -> bool {
    match t {
        Item::Alias(n, m) => g_alias_item(i, r, n@, m@),
        Item::Comment => g_remark(i, r),
        Item::SourceFilename => exists|a: Seq<char>| #[trigger] g_lit(i, a, "source_filename"@) && g_setting(a, r),
        Item::Target => exists|a: Seq<char>, b: Seq<char>| #[trigger] g_lit(i, a, "target"@) && #[trigger] g_sp(a, b) && g_target(b, r),
        Item::Global => exists|n: Option<Seq<char>>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, m: nat| #[trigger] g_global(i, a, n) && #[trigger] g_sp(a, b) && #[trigger] g_chr(b, c, '=') && #[trigger] g_sp(c, d) && #[trigger] many(Rep::AttrSp, m, d, e) && g_data(e, r),
        Item::Type => exists|n: Seq<char>, a: Seq<char>| #[trigger] g_alias(i, a, n) && g_setting(a, r),
        Item::Define(d) => g_define(i, r, d.name@, d.sig.ins(), d.sig.out(), d.stmts@),
        Item::Declare(d) => g_declare(i, r, d),
        Item::Attributes => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| g_lit(i, a, "attributes"@) && g_sp(a, b) && g_chr(b, c, '#') && g_line(c, r),
        Item::Metadata => exists|a: Seq<char>| g_lit(i, a, "!"@) && g_line(a, r),
        Item::ModuleAsm => exists|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, s: Seq<char>| g_lit(i, a, "module"@) && g_sp(a, b) && g_lit(b, c, "asm"@) && g_sp(c, d) && g_string(d, r, s),
    }
}
pub open spec fn g_data(i: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, w: Seq<char>| #[trigger] g_lit(i, a, w) && (w == "global"@ || w == "constant"@) && #[trigger] g_sp(a, b) && #[trigger] g_line(b, r) }
pub open spec fn g_items(i: Seq<char>, r: Seq<char>, s: Seq<Item>) -> bool
    decreases s.len()
{ if s.len() == 0 { i == r } else { exists|a: Seq<char>| g_items(i, a, s.drop_last()) && #[trigger] next_item((s.len() - 1) as nat, a, r, s.last()) } }
pub open spec fn next_item(before: nat, i: Seq<char>, r: Seq<char>, s: Item) -> bool { if before == 0 { g_item(i, r, s) } else { exists|b: Seq<char>, m: nat| #[trigger] many(Rep::Eol, m, i, b) && m > 0 && g_item(b, r, s) } }
/// the items are all of the text
pub open spec fn g_module(i: Seq<char>, s: Seq<Item>) -> bool { exists|a: Seq<char>, b: Seq<char>, m: nat| #[trigger] g_items(i, a, s) && #[trigger] many(Rep::Eol, m, a, b) && b.len() == 0 }

pub proof fn lits()
    ensures forall|a: VxStr, s: &str| #![trigger a@, lit(s)] a@ == s@ ==> a == lit(s)
{ assert forall|a: VxStr, s: &str| #![trigger a@, lit(s)] a@ == s@ implies a == lit(s) by { assert(a.s@ == lit(s).s@); } }

/// what the views of a signature are made of
pub proof fn sigs()
    ensures
        forall|s: FnSig| #[trigger] s.ins() == ts(s.inputs@),
        forall|s: FnSig| #[trigger] s.out() == (match s.output { Some(b) => Some(Box::new((*b).t())), None => None }),
        forall|s: FnSig| #![trigger s.ins()] Type::Fn(s).t() == T::Fn(s.ins(), s.out()),
{
    assert forall|s: FnSig| (#[trigger] s.out()) == (match s.output { Some(b) => Some(Box::new((*b).t())), None => None }) by { assert(s.out() == tb(s.output)); }
}
