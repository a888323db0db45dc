// ------------------------------------------------------------------ types and signatures
/// an LLVM type
pub enum T { Alias(Seq<char>), Array(nat, Box<T>), Double, Float, Int(nat), Packed(Seq<T>), Struct(Seq<T>), Fn(Seq<T>, Option<Box<T>>), Ptr(Box<T>), Opaque, Varargs, Vector(nat, Box<T>) }
pub open spec fn ts(v: Seq<Type>) -> Seq<T>
    decreases v
{ Seq::new(v.len(), |i: int| if 0 <= i < v.len() { v[i].t() } else { T::Double }) }
pub open spec fn tb(b: Option<Box<Type>>) -> Option<Box<T>>
    decreases b
{ match b { Some(o) => Some(Box::new((*o).t())), None => None } }
pub proof fn ts_at(v: Seq<Type>)
    ensures ts(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] ts(v)[i] == v[i].t()
{}
impl<'a> FnSig<'a> {
    pub open spec fn ins(&self) -> Seq<T> decreases self { ts(self.inputs@) }
    pub open spec fn out(&self) -> Option<Box<T>> decreases self { tb(self.output) }
}
impl<'a> Type<'a> {
    pub open spec fn t(&self) -> T
        decreases self
    {
        match self {
            Type::Alias(s) => T::Alias(s@),
            Type::Array(n, t) => T::Array(*n as nat, Box::new((**t).t())),
            Type::Double => T::Double,
            Type::Float => T::Float,
            Type::Integer(n) => T::Int(*n as nat),
            Type::PackedStruct(v) => T::Packed(ts(v@)),
            Type::Struct(v) => T::Struct(ts(v@)),
            Type::Fn(s) => T::Fn(s.ins(), s.out()),
            Type::Pointer(t) => T::Ptr(Box::new((**t).t())),
            Type::OpaquePointer => T::Opaque,
            Type::Varargs => T::Varargs,
            Type::MVTVector(n, t) => T::Vector(*n as nat, Box::new((**t).t())),
        }
    }
}
