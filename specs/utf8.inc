// ------------------------------------------------------------------ UTF-8
/// bytes of a character
pub open spec fn cw(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub uninterp spec fn encx(c: char) -> Seq<u8>;
pub open spec fn enc(c: char) -> Seq<u8> { if (c as u32) < 0x80 { seq![c as u8] } else { encx(c) } }
/// a character outside ASCII is encoded in bytes above 0x7f
pub axiom fn enc_wide(c: char)
    requires c as u32 >= 0x80
    ensures encx(c).len() == cw(c), forall|i: int| 0 <= i < encx(c).len() ==> (#[trigger] encx(c)[i]) >= 0x80;
pub open spec fn utf8(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc(s[0]) + utf8(s.drop_first()) } }
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { cw(s[0]) + blen(s.drop_first()) } }
pub proof fn utf8_len(s: Seq<char>)
    ensures utf8(s).len() == blen(s)
    decreases s.len()
{ if s.len() > 0 { utf8_len(s.drop_first()); if s[0] as u32 >= 0x80 { enc_wide(s[0]); } } }
pub proof fn blen_cat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else { blen_cat(a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); assert((a + b)[0] == a[0]); }
}
pub proof fn blen_min(s: Seq<char>)
    ensures blen(s) >= s.len(), s.len() > 0 ==> blen(s) > 0
    decreases s.len()
{ if s.len() > 0 { blen_min(s.drop_first()); } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f }
pub proof fn blen_ascii(s: Seq<char>)
    requires ascii(s)
    ensures blen(s) == s.len()
    decreases s.len()
{ if s.len() > 0 { assert(s[0] as u32 <= 0x7f); assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]) as u32 <= 0x7f by { assert(s.drop_first()[i] == s[i + 1]); } blen_ascii(s.drop_first()); } }
pub open spec fn is_hex(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn hexb(b: u8) -> bool { (0x30 <= b && b <= 0x39) || (0x61 <= b && b <= 0x66) || (0x41 <= b && b <= 0x46) }
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub proof fn hex_bytes(s: Seq<char>)
    ensures (forall|i: int| 0 <= i < utf8(s).len() ==> hexb(#[trigger] utf8(s)[i])) <==> all_hex(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        hex_bytes(t);
        let e = enc(s[0]);
        if s[0] as u32 >= 0x80 { enc_wide(s[0]); assert(utf8(s)[0] == e[0]); assert(!hexb(e[0])); assert(!is_hex(s[0])); }
        else {
            assert(utf8(s)[0] == s[0] as u8);
            assert(hexb(s[0] as u8) == is_hex(s[0]));
            if all_hex(s) {
                assert(is_hex(s[0]));
                assert forall|i: int| 0 <= i < t.len() implies is_hex(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
                assert forall|i: int| 0 <= i < utf8(s).len() implies hexb(#[trigger] utf8(s)[i]) by { if i > 0 { assert(utf8(s)[i] == utf8(t)[i - 1]); } }
            }
            if forall|i: int| 0 <= i < utf8(s).len() ==> hexb(#[trigger] utf8(s)[i]) {
                assert forall|i: int| 0 <= i < utf8(t).len() implies hexb(#[trigger] utf8(t)[i]) by { assert(utf8(s)[i + 1] == utf8(t)[i]); }
                assert forall|i: int| 0 <= i < s.len() implies is_hex(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } }
            }
        }
    }
}
pub assume_specification [u8::is_ascii_hexdigit] (b: &u8) -> (r: bool)
    ensures r == hexb(*b);
impl VxStr {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Vec<u8>)
        ensures r@ == utf8(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == blen(self@)
    { unimplemented!() }
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { proof { blen_min(self@); } self.len() == 0 }
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: VxIter<u8>)
        ensures r.rest() == utf8(self@)
    { unimplemented!() }
    /// get(n..)
    #[verifier::external_body]
    pub fn vx_get_from(&self, n: usize) -> (r: Option<&VxStr>)
        ensures
            r is Some <==> exists|k: int| 0 <= k <= self@.len() && blen(#[trigger] self@.take(k)) == n,
            r is Some ==> exists|k: int| 0 <= k <= self@.len() && blen(#[trigger] self@.take(k)) == n && (*r->0)@ == self@.skip(k),
    { unimplemented!() }
    /// [n..]
    #[verifier::external_body]
    pub fn vx_from(&self, n: usize) -> (r: &VxStr)
        requires exists|k: int| 0 <= k <= self@.len() && blen(#[trigger] self@.take(k)) == n
        ensures exists|k: int| 0 <= k <= self@.len() && blen(#[trigger] self@.take(k)) == n && r@ == self@.skip(k)
    { unimplemented!() }
    /// [..n]
    #[verifier::external_body]
    pub fn vx_to(&self, n: usize) -> (r: &VxStr)
        requires exists|k: int| 0 <= k <= self@.len() && blen(#[trigger] self@.take(k)) == n
        ensures exists|k: int| 0 <= k <= self@.len() && blen(#[trigger] self@.take(k)) == n && r@ == self@.take(k)
    { unimplemented!() }
}
/// a byte offset is at most one character offset
pub proof fn take_inj(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= s.len(), 0 <= k <= s.len(), blen(s.take(j)) == blen(s.take(k))
    ensures j == k
{
    if j < k { assert(s.take(k) =~= s.take(j) + s.subrange(j, k)); blen_cat(s.take(j), s.subrange(j, k)); blen_min(s.subrange(j, k)); }
    if k < j { assert(s.take(j) =~= s.take(k) + s.subrange(k, j)); blen_cat(s.take(k), s.subrange(k, j)); blen_min(s.subrange(k, j)); }
}
