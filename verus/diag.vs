//@ erase Doc DynDoctor Doctor Cache,RawCache,CacheOwned 2
//@ drop trait Doctor -- stands for user code; its contract is the one of DynDoctor in diag.vs
//@ drop impl NoopDoctor* -- user code of the cache (ignores all it is told)
//@ drop struct NoopDoctor -- user code of the cache (ignores all it is told)
//@ drop impl BuilderHandle as Hash -- not used by the cache
//@ drop impl BuilderHandle as PartialEq -- not used by the cache
//@ drop impl BuilderHandle as Eq -- not used by the cache
//@ drop impl ArtifactHandle as Hash -- not used by the cache
//@ drop impl ArtifactHandle as PartialEq -- not used by the cache
//@ drop impl ArtifactHandle as Eq -- not used by the cache
//@ attrs struct BuilderHandle #noderive
//@ attrs struct ArtifactHandle #noderive
//@ raw
/// Stand for the traits of std: with the doctor erased the cache would dereference to itself forever.
pub trait Deref { type Target: ?Sized; fn deref(&self) -> &Self::Target; }
pub trait DerefMut: Deref { fn deref_mut(&mut self) -> &mut Self::Target; }
/// Whatever doctor is attached. It may do anything with what it is told, but it has no access to the cache;
/// its log is by definition the sequence of the calls it received.
#[verifier::external_body]
#[verifier::reject_recursive_types(ArtCan)]
#[verifier::reject_recursive_types(BCan)]
pub struct DynDoctor<ArtCan, BCan> { p: PhantomData<(ArtCan, BCan)> }
pub type DefDoctor<ArtCan, BCan> = DynDoctor<ArtCan, BCan>;
impl<ArtCan, BCan> DynDoctor<ArtCan, BCan> {
    pub uninterp spec fn log(&self) -> Seq<Ev<ArtCan>>;
    #[verifier::external_body] // TRUSTED: the log of a doctor is what it was told
    pub fn resolve(&mut self, builder: &BuilderHandle<BCan>, used: &BuilderHandle<BCan>)
        ensures final(self).log() == old(self).log().push(Ev::Resolve(builder.id, used.id)),
    { }
    #[verifier::external_body] // TRUSTED: the log of a doctor is what it was told
    pub fn build(&mut self, builder: &BuilderHandle<BCan>, artifact: &ArtifactHandle<ArtCan>)
        ensures final(self).log() == old(self).log().push(Ev::Build(builder.id, artifact.value)),
    { }
    #[verifier::external_body] // TRUSTED: the log of a doctor is what it was told
    pub fn clear(&mut self)
        ensures final(self).log() == old(self).log().push(Ev::Clear),
    { }
    #[verifier::external_body] // TRUSTED: the log of a doctor is what it was told
    pub fn invalidate(&mut self, builder: &BuilderHandle<BCan>)
        ensures final(self).log() == old(self).log().push(Ev::Invalidate(builder.id)),
    { }
}
impl<ArtCan, BCan> Default for DynDoctor<ArtCan, BCan> {
    #[verifier::external_body] // TRUSTED: a new doctor
    fn default() -> (r: Self) { DynDoctor { p: PhantomData } }
}
#[verifier::external_body]
pub fn v_format() -> String { String::new() }
pub uninterp spec fn tname<T: ?Sized>() -> &'static str;
pub assume_specification<T: ?Sized>[ std::any::type_name::<T> ]() -> (r: &'static str) // TRUSTED: std::any::type_name
    ensures r == tname::<T>();

//@ fn ArtifactHandle::new(value)
//@ ensures
[C16] ret.value == <ArtCan as CanSized<T>>::canned(value) && ctag(ret.value) == kind::<ArtCan, T>() && ret.type_name == tname::<T>()
//@ at entry
proof { keeps::<ArtCan, T>(); }
//@ fn ArtifactHandle::into_inner()
//@ ensures
[C16] ret == self.value
//@ fn BuilderHandle::new(value)
//@ ensures
[C16] ret.id == value.pid() && (BCan::shares() ==> ret.value.addr() == value.pid().0) && ret.type_name == tname::<AP::Builder>()
//@ fn BuilderHandle::id()
//@ ensures
[C16] ret == self.id

//@ fn RawCache::new_with_doctor(doctor)
//@ ensures
[C09,C10] ret.inv()
[C10,C11] ret.known().dom() == Set::<Id>::empty()
[C16] ret.doctor == doctor
//@ fn Cache::new_with_doctor(doctor)
//@ ensures
[C09,C10] ret.inner.inv()
[C10,C11] ret.inner.known().dom() == Set::<Id>::empty()
[C16] ret.inner.doctor == doctor
//@ fn Cache::doctor()
//@ ensures
[C16] *ret == old(self).inner.doctor && *final(ret) == final(self).inner.doctor
[C16] final(self).inner.arts() =~= old(self).inner.arts() && final(self).inner.dyns() =~= old(self).inner.dyns() && final(self).inner.same_known(&old(self).inner) && final(self).inner.same_deps(&old(self).inner)
//@ fn Cache::into_doctor()
//@ ensures
[C16] ret == self.inner.doctor
//@ fn Cache as Deref::deref()
//@ ensures
[C01,C16] *ret == *self
//@ fn Cache as DerefMut::deref_mut()
//@ ensures
[C01,C16] *ret == *old(self) && *final(self) == *final(ret)
