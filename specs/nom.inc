// ------------------------------------------------------------------ nom 7 (assumed, from its documentation)
pub enum VxPErr { Error, Failure }
#[verifier::external_body]
pub struct VxErr { x: u8 }
#[verifier::external_body]
pub fn vx_err() -> VxErr { unimplemented!() }
pub type PRes<'a> = Result<(&'a VxStr, &'a VxStr), VxPErr>;
#[verifier::external_body]
pub fn vx_tag<'a>(i: &'a VxStr, t: &VxStr) -> (r: PRes<'a>)
    ensures r is Ok ==> g_lit(i@, (r->Ok_0).0@, t@), r is Err ==> r->Err_0 is Error
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_char<'a>(i: &'a VxStr, c: char) -> (r: Result<(&'a VxStr, char), VxPErr>)
    ensures r is Ok ==> g_chr(i@, (r->Ok_0).0@, c), r is Err ==> r->Err_0 is Error
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_digit1(i: &VxStr) -> (r: PRes)
    ensures r is Ok ==> g_dig(i@, (r->Ok_0).0@, (r->Ok_0).1@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_space1(i: &VxStr) -> (r: PRes)
    ensures r is Ok ==> g_sp(i@, (r->Ok_0).0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_space0(i: &VxStr) -> (r: PRes)
    ensures r is Ok ==> g_sp0(i@, (r->Ok_0).0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_line_ending(i: &VxStr) -> (r: PRes)
    ensures r is Ok ==> g_eol(i@, (r->Ok_0).0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_not_line_ending(i: &VxStr) -> (r: PRes)
    ensures r is Ok ==> g_line(i@, (r->Ok_0).0@)
{ unimplemented!() }
/// take_until: up to the first occurrence
#[verifier::external_body]
pub fn vx_take_until<'a>(i: &'a VxStr, t: &VxStr) -> (r: PRes<'a>)
    ensures r is Ok && t@ == "\""@ ==> g_upto(i@, (r->Ok_0).0@, (r->Ok_0).1@)
{ unimplemented!() }
/// is_not: the longest run of other characters, at least one
#[verifier::external_body]
pub fn vx_is_not<'a>(i: &'a VxStr, t: &VxStr) -> (r: PRes<'a>)
    ensures r is Ok && t@ == " \t\r\n"@ ==> g_tok(i@, (r->Ok_0).0@, (r->Ok_0).1@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_take_while1<'a, F: Fn(char) -> bool>(i: &'a VxStr, f: F) -> (r: PRes<'a>)
    ensures
        r is Ok ==> {
            let (rest, w) = ((r->Ok_0).0@, (r->Ok_0).1@);
            &&& i@ == w + rest
            &&& w.len() > 0
            &&& forall|k: int| 0 <= k < w.len() ==> f.ensures((#[trigger] w[k],), true)
            &&& rest.len() > 0 ==> f.ensures((rest[0],), false)
        }
{ unimplemented!() }
/// did the parser stay where it was?
#[verifier::external_body]
pub fn vx_same_place(a: &VxStr, b: &VxStr) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_usize_from_str(s: &VxStr) -> (r: Result<usize, ()>)
    ensures r is Ok && (forall|k: int| 0 <= k < s@.len() ==> is_dig(#[trigger] s@[k])) ==> r->Ok_0 == num(s@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_first_char(s: &VxStr) -> (r: Option<char>)
    ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_alphanumeric(c: char) -> (r: bool)
    ensures r == alnum(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_alphabetic(c: char) -> (r: bool)
    ensures r == alpha(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_digit(c: char, radix: u32) -> (r: bool)
    ensures radix == 10 ==> r == is_dig(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_ascii_digit(c: char) -> (r: bool)
    ensures r == is_dig(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_has_char(s: &VxStr, c: char) -> (r: bool)
    ensures r == s@.contains(c)
{ unimplemented!() }
impl VxStr {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
}
