// ------------------------------------------------------------------ formatters
/// slice pattern [a, b]
#[verifier::external_body]
pub fn vx_slice2<A>(v: &Vec<A>) -> (r: Option<(&A, &A)>)
    ensures r is Some <==> v@.len() == 2, r is Some ==> *((r->0).0) == v@[0] && *((r->0).1) == v@[1]
{ unimplemented!() }
impl<'a> Type<'a> {
    /// derive(PartialEq)
    #[verifier::external_body]
    pub fn vx_eq(&self, o: &Type<'a>) -> (r: bool)
        ensures r == (self.t() == o.t())
    { unimplemented!() }
}
/// `i1 (%v*, %core::fmt::Formatter*)`: the signature of a formatter of an erased type v
pub open spec fn one_void(k: FnSig, v: VxStr) -> bool {
    &&& k.ins().len() == 2 && k.ins()[0] == T::Ptr(Box::new(T::Alias(v@))) && k.ins()[1] == T::Ptr(Box::new(T::Alias("core::fmt::Formatter"@)))
    &&& k.out() == Some(Box::new(T::Int(1)))
}
pub open spec fn no_void(k: FnSig) -> bool { forall|v: VxStr| !#[trigger] one_void(k, v) }
pub proof fn shape<'a>(k: FnSig<'a>)
    ensures
        k.inputs@.len() != 2 ==> no_void(k), k.inputs@.len() == k.ins().len(),
        forall|v: VxStr| k.inputs@.len() == 2 ==> (#[trigger] one_void(k, v) <==> k.inputs@[0] is Pointer && (*k.inputs@[0]->Pointer_0).t() == T::Alias(v@) && k.inputs@[1] is Pointer && (*k.inputs@[1]->Pointer_0).t() == T::Alias("core::fmt::Formatter"@) && k.output is Some && (*k.output->0).t() == T::Int(1)),
        forall|s: &'a VxStr| #[trigger] Type::Alias(s).t() == T::Alias(s@), Type::Integer(1).t() == T::Int(1),
        forall|b: Box<Type<'a>>| #[trigger] Type::Pointer(b).t() == T::Ptr(Box::new((*b).t())),
        k.inputs@.len() == 2 && k.inputs@[0] is Pointer && (*k.inputs@[0]->Pointer_0) is Alias ==> (*k.inputs@[0]->Pointer_0).t() == T::Alias(((*k.inputs@[0]->Pointer_0)->Alias_0)@),
        k.inputs@.len() == 2 && k.inputs@[0] is Pointer && !((*k.inputs@[0]->Pointer_0) is Alias) ==> !((*k.inputs@[0]->Pointer_0).t() is Alias),
{ ts_at(k.inputs@); }
