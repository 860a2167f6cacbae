//@ drop trait Doctor -- stands for user code
//@ drop impl NoopDoctor* -- user code of the cache (ignores all it is told)
//@ drop struct NoopDoctor -- user code of the cache (ignores all it is told)
//@ drop fn ArtifactHandle::new -- verified in unit core_diag
//@ drop fn ArtifactHandle::into_inner -- verified in unit core_diag
//@ drop fn BuilderHandle::new -- verified in unit core_diag
//@ drop fn BuilderHandle::id -- verified in unit core_diag
//@ attrs struct BuilderHandle #expand
//@ attrs struct ArtifactHandle #expand
//@ raw
// TRUSTED: pointers to values of one allocation carry the same vtable, so comparing and hashing them is a matter of the address
impl PartialEq for DynPtr {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool)
        ensures r == (self.addr() == other.addr()),
    { false }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for DynPtr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.addr() == other.addr() }
}
impl Hash for DynPtr {
    open spec fn key(&self) -> Seq<u64> { seq![self.addr() as u64] }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { }
}
impl<BCan> vstd::std_specs::cmp::PartialEqSpecImpl for BuilderHandle<BCan> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.id == other.id }
}
impl<ArtCan: CanBase> vstd::std_specs::cmp::PartialEqSpecImpl for ArtifactHandle<ArtCan> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.value.addr() == other.value.addr() }
}
//@ extra impl BuilderHandle as Hash
[] open spec fn key(&self) -> Seq<u64> { seq![self.id.0 as u64] }
//@ fn BuilderHandle as PartialEq::eq(other)
//@ ensures
[C16] ret == (self.id == other.id)
//@ extra impl ArtifactHandle as Hash
[] open spec fn key(&self) -> Seq<u64> { seq![self.value.addr() as u64] }
//@ fn ArtifactHandle as PartialEq::eq(other)
//@ ensures
[C16] ret == (self.value.addr() == other.value.addr())
//@ fn BuilderHandle as Clone::clone()
//@ ensures
[C16] ret.id == self.id
//@ fn ArtifactHandle as Clone::clone()
//@ ensures
[C16] call_ensures(ArtCan::clone, (&self.value,), ret.value)
