//@@insert Local
impl Local {
//@@insert Local_fmt
}
//@@insert Max
impl Max {
//@@insert Max_fmt
}
//@@insert Node
impl Clone for Node {
    #[verifier::external_body]
    fn clone(&self) -> (r: Node)
        ensures r == *self
    { unimplemented!() }
}
pub type Graph<N, E> = DiGraph<N, E>;
pub struct VxNode<N> { pub weight: N }
pub struct VxEdge { pub e: Ghost<(int, int)> }
impl VxEdge {
    #[verifier::external_body]
    pub fn source(&self) -> (r: NodeIndex)
        ensures r.i() == self.e@.0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn target(&self) -> (r: NodeIndex)
        ensures r.i() == self.e@.1
    { unimplemented!() }
}
impl NodeIndex {
    pub fn index(&self) -> (r: usize)
        ensures r == self.i()
    { self.ix }
}
impl<N, E> DiGraph<N, E> {
    #[verifier::external_body]
    pub fn raw_nodes(&self) -> (r: &Vec<VxNode<N>>)
        ensures r@.len() == self.nodes().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).weight == self.nodes()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_edges(&self) -> (r: VxIter<VxEdge>)
        ensures r.rest().len() == self.edges().len(), forall|i: int| 0 <= i < self.edges().len() ==> (#[trigger] r.rest()[i]).e@ == self.edges()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_directed(&self) -> (r: bool)
        ensures r
    { unimplemented!() }
}
// ------------------------------------------------------------------ characters
impl VxStr {
    #[verifier::external_body]
    pub fn chars(&self) -> (r: VxIter<char>)
        ensures r.rest() == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(f).out@ == old(f).out@ + self@
    { unimplemented!() }
}
pub trait VxShowChar {
    spec fn vx_chars(&self) -> Seq<char>;
    fn vx_fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(f).out@ == old(f).out@ + self.vx_chars();
}
impl VxShowChar for char {
    open spec fn vx_chars(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_fmt(&self, f: &mut VxFmt) -> (r: Result<(), VxErr>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fmt_error() -> VxErr { unimplemented!() }
/// the escaped form of a character, of a text
pub open spec fn esc1(c: char) -> Seq<char> { if c == '"' || c == '\\' { seq!['\\', c] } else { seq![c] } }
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) } }
pub proof fn esc_cat(a: Seq<char>, b: Seq<char>)
    ensures esc(a + b) == esc(a) + esc(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(esc(a) + esc(b) =~= esc(a)); }
    else {
        esc_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(esc(a + b) =~= esc(a) + esc(b));
    }
}
/// where text goes, possibly encoded on the way (a homomorphism)
pub trait VxSink: Sized {
    spec fn sraw(&self) -> Seq<char>;
    spec fn senc(s: Seq<char>) -> Seq<char>;
    spec fn sok(&self) -> bool;
    #[verifier::prophetic]
    spec fn ssame(&self, o: &Self) -> bool;
    proof fn hom(a: Seq<char>, b: Seq<char>)
        ensures Self::senc(a + b) == Self::senc(a) + Self::senc(b);
    fn sink(&mut self, s: &VxStr) -> (r: Result<(), VxErr>)
        ensures
            r is Ok ==> final(self).sraw() == old(self).sraw() + Self::senc(s@) && final(self).sok() == old(self).sok(),
            r is Err ==> !final(self).sok(),
            final(self).ssame(old(self));
}
/// the demangled form of a symbol name
pub uninterp spec fn dem(s: Seq<char>) -> Seq<char>;
pub mod rustc_demangle {
    use super::*;
    pub struct Demangle { pub d: VxStr }
    impl Demangle {
        /// Display: the text is written to the sink in pieces, up to the first failure
        #[verifier::external_body]
        pub fn vx_fmt<W: VxSink>(&self, f: &mut W) -> (r: Result<(), VxErr>)
            ensures
                r is Ok ==> final(f).sraw() == old(f).sraw() + W::senc(self.d@) && final(f).sok() == old(f).sok(),
                r is Err ==> !final(f).sok(),
                final(f).ssame(old(f)),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn demangle(s: &VxStr) -> (r: Demangle)
        ensures r.d@ == dem(s@)
    { unimplemented!() }
}
// ------------------------------------------------------------------ dot
pub open spec fn show_local(l: Local) -> Seq<char> { match l { Local::Exact(n) => dec(n as nat), Local::Unknown => "?"@ } }
pub open spec fn show_max(m: Max) -> Seq<char> { match m { Max::Exact(n) => "= "@ + dec(n as nat), Max::LowerBound(n) => ">= "@ + dec(n as nat) } }
pub open spec fn head_text() -> Seq<char> { "digraph {\n"@ + "    node [fontname="@ + "monospace"@ + " shape=box]\n"@ }
/// what stands between the quotes of a node
pub open spec fn label_text(n: Node) -> Seq<char> {
    esc(dem(n.name@)) + (match n.max { Some(m) => "\\nmax "@ + show_max(m), None => Seq::empty() }) + "\\nlocal = "@ + show_local(n.local)
}
pub open spec fn node_text(i: nat, n: Node) -> Seq<char> {
    "    "@ + dec(i) + " [label=\""@ + label_text(n) + "\""@ + (if n.dashed { " style=dashed"@ } else { Seq::empty() }) + "]\n"@
}
pub open spec fn nodes_text(s: Seq<Node>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { nodes_text(s.drop_last()) + node_text((s.len() - 1) as nat, s.last()) } }
pub open spec fn edge_text(e: (int, int)) -> Seq<char> { "    "@ + dec(e.0 as nat) + " -> "@ + dec(e.1 as nat) + "\n"@ }
pub open spec fn edges_text(s: E2) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { edges_text(s.drop_last()) + edge_text(s.last()) } }
pub open spec fn members_text(s: Seq<int>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { members_text(s.drop_last()) + "        "@ + dec(s.last() as nat) + "\n"@ } }
pub open spec fn cluster_text(i: nat, c: Seq<int>) -> Seq<char> {
    "\n    subgraph cluster_"@ + dec(i) + " {\n"@ + "        style=dashed\n"@ + "        fontname="@ + "monospace"@ + "\n"@
    + "        label=\"SCC"@ + dec(i) + "\"\n"@ + members_text(c) + "    }\n"@
}
pub open spec fn clusters_text(s: Seq<Seq<int>>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { clusters_text(s.drop_last()) + cluster_text((s.len() - 1) as nat, s.last()) } }
pub open spec fn idx(c: Seq<NodeIndex>) -> Seq<int> { c.map_values(|n: NodeIndex| n.i()) }
pub open spec fn ids(c: Seq<Vec<NodeIndex>>) -> Seq<Seq<int>> { c.map_values(|v: Vec<NodeIndex>| idx(v@)) }
pub open spec fn dot_text(n: Seq<Node>, e: E2, c: Seq<Seq<int>>) -> Seq<char> { head_text() + nodes_text(n) + edges_text(e) + clusters_text(c) + "}\n"@ }
// ------------------------------------------------------------------ top
//@@include maxof.inc
pub open spec fn mx(n: Node) -> Max { match n.max { Some(m) => m, None => Max::Exact(0) } }
pub open spec fn maxs(s: Seq<Node>) -> Seq<Max> { s.map_values(|n: Node| mx(n)) }
pub open spec fn ord(a: Node, b: Node) -> core::cmp::Ordering {
    if lknown(a.local) > lknown(b.local) { core::cmp::Ordering::Less } else if lknown(a.local) == lknown(b.local) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
pub open spec fn sorted(s: Seq<Node>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lknown((#[trigger] s[i]).local) >= lknown((#[trigger] s[j]).local) }
pub open spec fn line(n: Node) -> Seq<char> { dec(lknown(n.local)) + " "@ + esc(dem(n.name@)) + "\n"@ }
pub open spec fn lines(s: Seq<Node>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { lines(s.drop_last()) + line(s.last()) } }
/// the first line: the largest maximum
pub open spec fn max_line(s: Seq<Node>) -> Seq<char> {
    if s.len() == 0 { Seq::empty() } else { dec(largest(maxs(s))) + " MAX\n"@ }
}
pub open spec fn largest(s: Seq<Max>) -> nat { choose|n: nat| is_largest(s, n) }
pub proof fn largest_one(s: Seq<Max>, n: nat)
    requires is_largest(s, n)
    ensures n == largest(s)
{
    let m = largest(s);
    assert(is_largest(s, m));
    let i = choose|i: int| 0 <= i < s.len() && known(#[trigger] s[i]) == n;
    let j = choose|j: int| 0 <= j < s.len() && known(#[trigger] s[j]) == m;
}
pub open spec fn top_witness(s: Seq<Node>, t: Seq<Node>, pre: Seq<char>, post: Seq<char>) -> bool {
    t.to_multiset() == s.to_multiset() && sorted(t) && post == pre + max_line(s) + "Usage Function\n"@ + lines(t)
}
pub open spec fn top_ok(s: Seq<Node>, pre: Seq<char>, post: Seq<char>) -> bool { exists|t: Seq<Node>| #[trigger] top_witness(s, t, pre, post) }
#[verifier::external_body]
pub fn vx_cmp(a: u64, b: u64) -> (r: core::cmp::Ordering)
    ensures r == (if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_reverse(a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less })
{ unimplemented!() }
/// slice::sort_by with the comparator top_order (whose contract is `ret == ord(a, b)`)
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<Node>)
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !(ord(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) is Greater),
{ unimplemented!() }
pub proof fn esc_nl()
    ensures esc("\n"@) == "\n"@
{ reveal_strlit("\n"); let s = "\n"@; assert(s.drop_last() =~= Seq::<char>::empty()); assert(esc(Seq::<char>::empty()) =~= Seq::empty()); assert(s.last() == '\n'); assert(esc(s) =~= s); }
