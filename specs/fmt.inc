// ------------------------------------------------------------------ writers
pub struct VxErr { pub e: u8 }
/// core::fmt::Formatter (default format): text is appended
pub struct VxFmt { pub out: Ghost<Seq<char>> }
impl VxFmt {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &VxStr) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(self).out@ == old(self).out@ + s@
    { unimplemented!() }
}
pub open spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
/// a number in decimal
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
/// Display of unsigned integers: decimal
pub trait VxDec {
    spec fn vx_num(&self) -> nat;
    fn vx_fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(f).out@ == old(f).out@ + dec(self.vx_num());
}
impl VxDec for usize {
    open spec fn vx_num(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn vx_fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxErr>) { unimplemented!() }
}
impl VxDec for u64 {
    open spec fn vx_num(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn vx_fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxErr>) { unimplemented!() }
}
