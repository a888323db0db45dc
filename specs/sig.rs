//@@spec Type_loosely_equal
    ensures
        ret == loose(self.t(), other.t()), //#C09 two types are compatible iff equal or both pointers, one of them `ptr`
//@@spec FnSig_loosely_equal
    ensures
        ret == sloose(self.ins(), self.out(), other.ins(), other.out()), //#C09 signatures are matched parameter by parameter and in the return value
//@@inv FnSig_loosely_equal.0
    invariant
        0 <= k <= i1.len(), i1.len() == i2.len(), i1 == self.inputs@, i2 == other.inputs@,
        vx_it_L0.rest().len() == i1.len() - k, vx_jt_L0.rest().len() == i1.len() - k,
        forall|j: int| 0 <= j < i1.len() - k ==> *(#[trigger] vx_it_L0.rest()[j]) == i1[k + j],
        forall|j: int| 0 <= j < i1.len() - k ==> *(#[trigger] vx_jt_L0.rest()[j]) == i2[k + j],
        ts(i1).len() == i1.len(), ts(i2).len() == i2.len(),
        forall|j: int| 0 <= j < i1.len() ==> #[trigger] ts(i1)[j] == i1[j].t(),
        forall|j: int| 0 <= j < i2.len() ==> #[trigger] ts(i2)[j] == i2[j].t(),
        vx_b_L0 == forall|j: int| 0 <= j < k ==> loose(#[trigger] ts(i1)[j], ts(i2)[j]), //#C09 every parameter is compared
    ensures
        k == i1.len(),
    decreases vx_it_L0.rest().len(),
//@@proof FnSig_loosely_equal.entry
    let ghost i1 = self.inputs@;
    let ghost i2 = other.inputs@;
    let ghost mut k = 0int;
    proof { ts_at(i1); ts_at(i2); }
//@@proof FnSig_loosely_equal.0.top
    proof { if k < i1.len() { assert(*vx_it_L0.rest()[0] == i1[k]); assert(*vx_jt_L0.rest()[0] == i2[k]); assert(ts(i1)[k] == i1[k].t() && ts(i2)[k] == i2[k].t()); k = k + 1; } }
//@@spec Type_fmt
    ensures
        ret is Ok ==> final(f).out@ =~= old(f).out@ + show(self.t()), //#C12 a type is printed in full, in LLVM notation
    decreases self, 1int

//@@spec FnSig_fmt
    ensures
        ret is Ok ==> final(f).out@ =~= old(f).out@ + show_sig(self.ins(), self.out()), //#C12 a signature is printed with its return type and all its parameter types, in order
    decreases self, 1int
//@@inv FnSig_fmt.0
    invariant
        0 <= k <= v.len(), v == self.inputs@, is_first == (k == 0),
        vx_it_L0.rest().len() == v.len() - k,
        forall|j: int| 0 <= j < v.len() - k ==> *(#[trigger] vx_it_L0.rest()[j]) == v[k + j],
        f.out@ =~= pre + list(ts(v), k as nat), //#C12 the parameters are printed in order, all of them
    ensures
        k == v.len(),
    decreases vx_it_L0.rest().len(),
//@@proof FnSig_fmt.0.before
    let ghost v = self.inputs@;
    let ghost mut k = 0int;
    let ghost pre = f.out@;
//@@proof FnSig_fmt.0.top
    proof { if k < v.len() { assert(*vx_it_L0.rest()[0] == v[k]); k = k + 1; } }
//@@proof FnSig_fmt.0.after
    proof { ts_at(v); assert(v.len() == ts(v).len()); }
//@@spec fmt_struct
    ensures
        ret is Ok ==> final(f).out@ =~= old(f).out@ + show_fields(ts(fields@)), //#C12 the fields of a struct are printed in full
    decreases fields, 1int
//@@inv fmt_struct.0
    invariant
        0 <= k <= v.len(), v == fields@, is_first == (k == 0),
        vx_it_L0.rest().len() == v.len() - k,
        forall|j: int| 0 <= j < v.len() - k ==> *(#[trigger] vx_it_L0.rest()[j]) == v[k + j],
        f.out@ =~= pre + list(ts(v), k as nat), //#C12 the fields are printed in order, all of them
    ensures
        k == v.len(),
    decreases vx_it_L0.rest().len(),
//@@proof fmt_struct.0.before
    let ghost v = fields@;
    let ghost mut k = 0int;
    let ghost pre = f.out@;
//@@proof fmt_struct.0.top
    proof { if k < v.len() { assert(*vx_it_L0.rest()[0] == v[k]); k = k + 1; } }
//@@proof fmt_struct.0.after
    proof { assert(v.len() == ts(v).len()); }
//@@code
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
verus! {
//@@include iter.inc
//@@include strs.inc
//@@include fmt.inc
//@@insert Type
//@@insert FnSig
//@@include sig.inc
//@@include sig_inj.inc
impl<'a> Type<'a> {
//@@insert Type_loosely_equal
//@@insert Type_fmt
}
impl<'a> FnSig<'a> {
//@@insert FnSig_loosely_equal
//@@insert FnSig_fmt
}
//@@insert fmt_struct
fn main() {}
}
