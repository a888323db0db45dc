/// the demangled form of a symbol name
pub uninterp spec fn dem(s: Seq<char>) -> Seq<char>;
pub mod rustc_demangle {
    use super::*;
    pub struct Demangle { pub d: VxStr }
    impl Demangle {
        pub fn to_string(&self) -> (r: VxStr)
            ensures r == self.d
        { self.d }
    }
    #[verifier::external_body]
    pub fn demangle(s: &VxStr) -> (r: Demangle)
        ensures r.d@ == dem(s@)
    { unimplemented!() }
}
