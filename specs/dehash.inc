// ------------------------------------------------------------------ C13
/// `::h` and 16 hex digits
pub open spec fn hash19(h: Seq<char>) -> bool { h.len() == 19 && h[0] == ':' && h[1] == ':' && h[2] == 'h' && all_hex(h.skip(3)) }
pub open spec fn hashed(s: Seq<char>) -> bool { s.len() > 19 && hash19(s.skip(s.len() - 19)) }
/// the path without its hash
pub open spec fn path(s: Seq<char>) -> Seq<char> { s.take(s.len() - 19) }
