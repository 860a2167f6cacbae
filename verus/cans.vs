//@ drop trait Unpacking -- verified in unit core
//@ drop impl Result as Unpacking -- verified in unit core
//@ drop fn unpack -- verified in unit core
//@ ifnot simple
//@ drop trait Builder -- only its associated types matter here
//@ endif
//@ attrs struct BuilderArtifact #expand
//@ raw
broadcast use {defs::Rc_ctag, defs::Rc_kind, defs::Arc_ctag, defs::Arc_kind, defs::Box_ctag, defs::Box_kind, defs::Ba_ctag};
pub use defs::*;
/// Stands for `dyn Any` (and `dyn Any + Send + Sync`).
#[verifier::external_body]
pub struct AnyObj { x: str }
/// Stands for `dyn Builder<ArtCan, BCan, Artifact=Art, Err=Err, DynState=Dyn>`.
#[verifier::external_body]
#[verifier::reject_recursive_types(ArtCan)]
#[verifier::reject_recursive_types(BCan)]
#[verifier::reject_recursive_types(Art)]
#[verifier::reject_recursive_types(Err)]
#[verifier::reject_recursive_types(Dyn)]
pub struct DynBuilder<ArtCan, BCan, Art, Err, Dyn> { p: PhantomData<(ArtCan, BCan, Art, Err, Dyn)>, x: str }
//@ ifnot simple
/// A builder: here only its associated types matter.
pub trait Builder<ArtCan, BCan>: 'static { type Artifact; type DynState; type Err; }
//@ endif
#[verifier::external_body]
pub struct Never { x: usize }
pub trait VFromDyn<T>: Sized { fn v_from(t: T) -> Self; }
pub trait Unsize<T: ?Sized> { }
pub type Bp<B, BCan> = Blueprint<B, BCan>;
pub type Bpu<B, BCan> = BlueprintUnsized<B, BCan>;

/// Local versions of the standard traits, with contracts.
pub trait AsRef<T: ?Sized> {
    spec fn ar(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures r == self.ar();
}
pub trait Hasher {
    /// What it was fed.
    spec fn fed(&self) -> Seq<u64>;
    fn write_u8(&mut self, x: u8) ensures final(self).fed() == old(self).fed().push(x as u64);
    fn write_u32(&mut self, x: u32) ensures final(self).fed() == old(self).fed().push(x as u64);
    fn write_u64(&mut self, x: u64) ensures final(self).fed() == old(self).fed().push(x);
    fn write_usize(&mut self, x: usize) ensures final(self).fed() == old(self).fed().push(x as u64);
}
pub trait Hash {
    /// What it feeds a hasher with.
    spec fn key(&self) -> Seq<u64>;
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures final(state).fed() == old(state).fed() + self.key();
}
impl Hash for usize {
    open spec fn key(&self) -> Seq<u64> { seq![*self as u64] }
    fn hash<H: Hasher>(&self, state: &mut H) { state.write_usize(*self); assert(old(state).fed() + seq![*self as u64] =~= old(state).fed().push(*self as u64)); }
}

pub mod defs {
use super::*;
/// An allocation: where it is, what type and value are in it, whether it was made by `new`, whether all strong handles are gone.
#[verifier::external_body]
pub struct Raw { p: usize }
impl Raw {
    pub uninterp spec fn addr(self) -> usize;
    pub uninterp spec fn rtag(self) -> int;
    pub uninterp spec fn rval<T>(self) -> T;
    pub uninterp spec fn rref<T: ?Sized>(self) -> &'static T;
    pub uninterp spec fn born(self) -> bool;
    pub uninterp spec fn rdead(self) -> bool;
}

// ---------------------------------------------------------------- Rc
/// A strong handle: the allocation it refers to.
#[verifier::reject_recursive_types(T)]
pub struct Rc<T: ?Sized> { pub p: Raw, pub t: PhantomData<T> }
/// A weak handle.
#[verifier::reject_recursive_types(T)]
pub struct WeakRc<T: ?Sized> { pub p: Raw, pub t: PhantomData<T> }
pub type RcAny = Rc<AnyObj>;
pub type WeakRcAny = WeakRc<AnyObj>;
impl<T: ?Sized> Clone for Rc<T> {
    #[verifier::external_body] // TRUSTED: Rc::clone shares the allocation
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { panic!() }
}
impl<T: ?Sized> AsRef<T> for Rc<T> {
    open spec fn ar(&self) -> &T { self.p.rref::<T>() }
    #[verifier::external_body] // TRUSTED: Rc::as_ref
    fn as_ref(&self) -> (r: &T) { panic!() }
}
impl<T: ?Sized> Rc<T> {
    /// An unsizing coercion keeps the allocation.
    pub fn v_co<U: ?Sized>(self) -> (r: Rc<U>)
        ensures r.p == self.p,
    { Rc { p: self.p, t: PhantomData } }
    #[verifier::external_body] // TRUSTED: the address a Rc dereferences to
    pub fn deref(&self) -> (r: DynPtr)
        ensures r.addr() == self.p.addr(),
    { panic!() }
    pub fn as_ptr(s: &Self) -> (r: DynPtr)
        ensures r.addr() == s.p.addr(),
    { s.deref() }
    #[verifier::external_body] // TRUSTED: Rc::ptr_eq
    pub fn ptr_eq(a: &Self, b: &Self) -> (r: bool)
        ensures r == (a.p.addr() == b.p.addr()),
    { panic!() }
    #[verifier::external_body] // TRUSTED: Rc::downgrade refers to the same allocation
    pub fn downgrade(s: &Self) -> (r: WeakRc<T>)
        ensures r.p == s.p,
    { panic!() }
}
impl<T: ?Sized> WeakRc<T> {
    #[verifier::external_body] // TRUSTED: Weak::upgrade gives the same allocation unless no strong handle is left
    pub fn upgrade(&self) -> (r: Option<Rc<T>>)
        ensures r.is_none() == self.p.rdead(), r matches Some(s) ==> s.p == self.p,
    { panic!() }
}
impl<T> Rc<T> {
    #[verifier::external_body] // TRUSTED: Rc::new puts the value into an allocation of its own
    pub fn new(t: T) -> (r: Rc<T>)
        ensures r.p.rval::<T>() == t, r.p.rtag() == tag::<T>(), r.p.born(),
    { panic!() }
}
#[verifier::external_body] // TRUSTED: type safety: an Rc<T> holds a T
pub proof fn Rc_typed<T>()
    ensures forall|r: Rc<T>| #[trigger] r.p.rtag() == tag::<T>(),
{ }
impl Rc<AnyObj> {
    #[verifier::external_body] // TRUSTED: Rc<dyn Any>::downcast
    pub fn downcast<T>(self) -> (r: Result<Rc<T>, Self>)
        ensures
            r.is_ok() == (self.p.rtag() == tag::<T>()),
            r matches Ok(s) ==> s.p == self.p,
            r matches Err(s) ==> s == self,
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::downcast_ref
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures
            r.is_some() == (self.p.rtag() == tag::<T>()),
            r matches Some(v) ==> *v == self.p.rval::<T>(),
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::is
    pub fn is<T>(&self) -> (r: bool)
        ensures r == (self.p.rtag() == tag::<T>()),
    { panic!() }
}
#[verifier::external_body] // definition of ctag and kind for Rc<dyn Any>
pub broadcast proof fn Rc_ctag(c: RcAny)
    ensures #[trigger] ctag::<RcAny>(c) == c.p.rtag(),
{ }
#[verifier::external_body] // definition of ctag and kind for Rc<dyn Any>
pub broadcast proof fn Rc_kind<T>()
    ensures #[trigger] kind::<RcAny, T>() == tag::<T>(),
{ }

// ---------------------------------------------------------------- Arc
/// A strong handle: the allocation it refers to.
#[verifier::reject_recursive_types(T)]
pub struct Arc<T: ?Sized> { pub p: Raw, pub t: PhantomData<T> }
/// A weak handle.
#[verifier::reject_recursive_types(T)]
pub struct WeakArc<T: ?Sized> { pub p: Raw, pub t: PhantomData<T> }
pub type ArcAny = Arc<AnyObj>;
pub type WeakArcAny = WeakArc<AnyObj>;
impl<T: ?Sized> Clone for Arc<T> {
    #[verifier::external_body] // TRUSTED: Arc::clone shares the allocation
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { panic!() }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    open spec fn ar(&self) -> &T { self.p.rref::<T>() }
    #[verifier::external_body] // TRUSTED: Arc::as_ref
    fn as_ref(&self) -> (r: &T) { panic!() }
}
impl<T: ?Sized> Arc<T> {
    /// An unsizing coercion keeps the allocation.
    pub fn v_co<U: ?Sized>(self) -> (r: Arc<U>)
        ensures r.p == self.p,
    { Arc { p: self.p, t: PhantomData } }
    #[verifier::external_body] // TRUSTED: the address a Arc dereferences to
    pub fn deref(&self) -> (r: DynPtr)
        ensures r.addr() == self.p.addr(),
    { panic!() }
    pub fn as_ptr(s: &Self) -> (r: DynPtr)
        ensures r.addr() == s.p.addr(),
    { s.deref() }
    #[verifier::external_body] // TRUSTED: Arc::ptr_eq
    pub fn ptr_eq(a: &Self, b: &Self) -> (r: bool)
        ensures r == (a.p.addr() == b.p.addr()),
    { panic!() }
    #[verifier::external_body] // TRUSTED: Arc::downgrade refers to the same allocation
    pub fn downgrade(s: &Self) -> (r: WeakArc<T>)
        ensures r.p == s.p,
    { panic!() }
}
impl<T: ?Sized> WeakArc<T> {
    #[verifier::external_body] // TRUSTED: Weak::upgrade gives the same allocation unless no strong handle is left
    pub fn upgrade(&self) -> (r: Option<Arc<T>>)
        ensures r.is_none() == self.p.rdead(), r matches Some(s) ==> s.p == self.p,
    { panic!() }
}
impl<T> Arc<T> {
    #[verifier::external_body] // TRUSTED: Arc::new puts the value into an allocation of its own
    pub fn new(t: T) -> (r: Arc<T>)
        ensures r.p.rval::<T>() == t, r.p.rtag() == tag::<T>(), r.p.born(),
    { panic!() }
}
#[verifier::external_body] // TRUSTED: type safety: an Arc<T> holds a T
pub proof fn Arc_typed<T>()
    ensures forall|r: Arc<T>| #[trigger] r.p.rtag() == tag::<T>(),
{ }
impl Arc<AnyObj> {
    #[verifier::external_body] // TRUSTED: Arc<dyn Any>::downcast
    pub fn downcast<T>(self) -> (r: Result<Arc<T>, Self>)
        ensures
            r.is_ok() == (self.p.rtag() == tag::<T>()),
            r matches Ok(s) ==> s.p == self.p,
            r matches Err(s) ==> s == self,
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::downcast_ref
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures
            r.is_some() == (self.p.rtag() == tag::<T>()),
            r matches Some(v) ==> *v == self.p.rval::<T>(),
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::is
    pub fn is<T>(&self) -> (r: bool)
        ensures r == (self.p.rtag() == tag::<T>()),
    { panic!() }
}
#[verifier::external_body] // definition of ctag and kind for Arc<dyn Any>
pub broadcast proof fn Arc_ctag(c: ArcAny)
    ensures #[trigger] ctag::<ArcAny>(c) == c.p.rtag(),
{ }
#[verifier::external_body] // definition of ctag and kind for Arc<dyn Any>
pub broadcast proof fn Arc_kind<T>()
    ensures #[trigger] kind::<ArcAny, T>() == tag::<T>(),
{ }

// ---------------------------------------------------------------- Box
/// A strong handle: the allocation it refers to.
#[verifier::reject_recursive_types(T)]
pub struct Box<T: ?Sized> { pub p: Raw, pub t: PhantomData<T> }
pub type BoxAny = Box<AnyObj>;
impl<T: ?Sized> Clone for Box<T> {
    #[verifier::external_body] // Box::clone clones the value
    fn clone(&self) -> (r: Self) { panic!() }
}
impl<T: ?Sized> AsRef<T> for Box<T> {
    open spec fn ar(&self) -> &T { self.p.rref::<T>() }
    #[verifier::external_body] // TRUSTED: Box::as_ref
    fn as_ref(&self) -> (r: &T) { panic!() }
}
impl<T: ?Sized> Box<T> {
    /// An unsizing coercion keeps the allocation.
    pub fn v_co<U: ?Sized>(self) -> (r: Box<U>)
        ensures r.p == self.p,
    { Box { p: self.p, t: PhantomData } }
    #[verifier::external_body] // TRUSTED: the address a Box dereferences to
    pub fn deref(&self) -> (r: DynPtr)
        ensures r.addr() == self.p.addr(),
    { panic!() }
}
impl<T> Box<T> {
    #[verifier::external_body] // TRUSTED: Box::new puts the value into an allocation of its own
    pub fn new(t: T) -> (r: Box<T>)
        ensures r.p.rval::<T>() == t, r.p.rtag() == tag::<T>(), r.p.born(),
    { panic!() }
}
#[verifier::external_body] // TRUSTED: type safety: an Box<T> holds a T
pub proof fn Box_typed<T>()
    ensures forall|r: Box<T>| #[trigger] r.p.rtag() == tag::<T>(),
{ }
impl Box<AnyObj> {
    #[verifier::external_body] // TRUSTED: Box<dyn Any>::downcast
    pub fn downcast<T>(self) -> (r: Result<Box<T>, Self>)
        ensures
            r.is_ok() == (self.p.rtag() == tag::<T>()),
            r matches Ok(s) ==> s.p == self.p,
            r matches Err(s) ==> s == self,
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::downcast_ref
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>)
        ensures
            r.is_some() == (self.p.rtag() == tag::<T>()),
            r matches Some(v) ==> *v == self.p.rval::<T>(),
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::downcast_mut
    pub fn downcast_mut<T>(&mut self) -> (r: Option<&mut T>)
        ensures
            old(self).p.rtag() != tag::<T>() ==> r.is_none() && *final(self) == *old(self),
            old(self).p.rtag() == tag::<T>() ==> (r matches Some(v) && *v == old(self).p.rval::<T>()
                && final(self).p.rtag() == tag::<T>() && final(self).p.rval::<T>() == *final(v) && final(self).p.addr() == old(self).p.addr()
                && (*final(v) == *v ==> *final(self) == *old(self))),
    { panic!() }
    #[verifier::external_body] // TRUSTED: <dyn Any>::is
    pub fn is<T>(&self) -> (r: bool)
        ensures r == (self.p.rtag() == tag::<T>()),
    { panic!() }
}
#[verifier::external_body] // definition of ctag and kind for Box<dyn Any>
pub broadcast proof fn Box_ctag(c: BoxAny)
    ensures #[trigger] ctag::<BoxAny>(c) == c.p.rtag(),
{ }
#[verifier::external_body] // definition of ctag and kind for Box<dyn Any>
pub broadcast proof fn Box_kind<T>()
    ensures #[trigger] kind::<BoxAny, T>() == tag::<T>(),
{ }
#[verifier::external_body] // definition of ctag and kind for blueprints as artifacts: they are tagged like the can of their builder
pub broadcast proof fn Ba_ctag<C>(c: BuilderArtifact<C>)
    ensures #[trigger] ctag::<BuilderArtifact<C>>(c) == ctag::<C>(c.0),
{ }
#[verifier::external_body] // definition of ctag and kind for blueprints as artifacts
pub proof fn Ba_kind<B, C: Can<B>>()
    ensures kind::<BuilderArtifact<C>, Blueprint<B, C>>() == kind::<C, B>(),
{ }
#[verifier::external_body] // definition of ctag and kind for blueprints as artifacts
pub proof fn Ba_kindu<B, C: Can<B>>()
    ensures kind::<BuilderArtifact<C>, BlueprintUnsized<B, C>>() == kind::<C, B>(),
{ }
} // mod defs

// ---------------------------------------------------------------- blueprints
impl<B, BCan: Can<B>> Blueprint<B, BCan> {
    /// The identity of the builder: where it is.
    pub open spec fn bid(&self) -> Id { BuilderId(BCan::bin_addr(self.builder)) }
}
impl<B: ?Sized, BCan: Can<B>> BlueprintUnsized<B, BCan> {
    pub open spec fn bid(&self) -> Id { BuilderId(self.builder_canned.addr()) }
    /// The bin and the can refer to the same builder.
    pub open spec fn uwf(&self) -> bool { BCan::bin_addr(self.builder) == self.builder_canned.addr() }
    pub fn deref(&self) -> (r: &Self)
        ensures r == self,
    { self }
}
impl<ArtCan, BCan, Art, Err, DynSt> BlueprintDyn<ArtCan, BCan, Art, Err, DynSt>
    where BCan: Can<DynBuilder<ArtCan, BCan, Art, Err, DynSt>>
{
    pub open spec fn bid(&self) -> Id { BuilderId(self.builder_canned.addr()) }
    pub open spec fn uwf(&self) -> bool { BCan::bin_addr(self.builder) == self.builder_canned.addr() }
}
impl<B, BCan: Can<B>> vstd::std_specs::cmp::PartialEqSpecImpl for Blueprint<B, BCan>  {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.bid() == other.bid() }
}
impl<B: ?Sized, BCan: Can<B>> vstd::std_specs::cmp::PartialEqSpecImpl for BlueprintUnsized<B, BCan>  {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.bid() == other.bid() }
}
impl<ArtCan, BCan, Art, Err, DynSt> vstd::std_specs::cmp::PartialEqSpecImpl for BlueprintDyn<ArtCan, BCan, Art, Err, DynSt> where BCan: Can<DynBuilder<ArtCan, BCan, Art, Err, DynSt>> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.bid() == other.bid() }
}
impl<B, BCan: CanSized<B>> vstd::std_specs::convert::FromSpecImpl<B> for Blueprint<B, BCan>  {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: B) -> Self { arbitrary() }
}
impl<B, BCan: CanSized<B>> vstd::std_specs::convert::FromSpecImpl<B> for BlueprintUnsized<B, BCan> where BCan::Bin: Clone {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: B) -> Self { arbitrary() }
}
impl<B, BCan: CanSized<B>> vstd::std_specs::convert::FromSpecImpl<Blueprint<B, BCan>> for BlueprintUnsized<B, BCan> where BCan::Bin: Clone {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Blueprint<B, BCan>) -> Self { arbitrary() }
}
impl<ArtCan, BCan, Art, Err, DynSt, B> vstd::std_specs::convert::FromSpecImpl<Blueprint<B, BCan>> for BlueprintDyn<ArtCan, BCan, Art, Err, DynSt> where BCan: CanBuilder<ArtCan, Art, DynSt, Err, B> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Blueprint<B, BCan>) -> Self { arbitrary() }
}
/// The blueprint in a can of its builder, and back.
pub trait Canned<C>: Sized {
    spec fn as_can(self) -> C;
    spec fn of_can(c: C) -> Self;
    spec fn okc(self) -> bool;
}
impl<B, BCan: CanSized<B>> Canned<BCan> for Blueprint<B, BCan> {
    open spec fn as_can(self) -> BCan { BCan::canned(self.builder) }
    open spec fn of_can(c: BCan) -> Self { Blueprint { builder: c.uncanned() } }
    open spec fn okc(self) -> bool { BCan::bin_ok(self.builder) }
}
impl<B, BCan: CanSized<B>> Canned<BCan> for BlueprintUnsized<B, BCan> {
    open spec fn as_can(self) -> BCan { self.builder_canned }
    open spec fn of_can(c: BCan) -> Self { BlueprintUnsized { builder: c.uncanned(), builder_canned: c } }
    open spec fn okc(self) -> bool {
        BCan::bin_ok(self.builder) && self.builder == self.builder_canned.uncanned() && self.uwf() && ctag(self.builder_canned) == kind::<BCan, B>()
    }
}

//@ fn CanUnsized::into_unsized(bin)
//@ ensures
[C13] <Self as Can<UT>>::bin_addr(ret) == <Self as Can<T>>::bin_addr(bin)
//@ fn CanBuilder::can_unsized(builder)
//@ ensures
[C13] <Self as Can<DynBuilder<ArtCan, Self, Artifact, Err, DynState>>>::bin_addr(ret.0) == <Self as Can<B>>::bin_addr(builder)
[C13] ret.1.addr() == <Self as Can<B>>::bin_addr(builder)

//@ fn Blueprint::new(builder)
//@ ensures
[C13] BCan::bin_val(ret.builder) == builder && BCan::fresh(ret.builder)
[C13] BCan::t_ok(builder) ==> BCan::bin_ok(ret.builder)
//@ fn Blueprint::new_binned(builder_bin)
//@ ensures
[C13,C14] ret.builder == builder_bin
//@ fn Blueprint::builder_ptr()
//@ ensures
[C13,C14] ret.addr() == self.bid().0
//@ fn Blueprint::id()
//@ ensures
[C13] ret == self.bid()
//@ extra impl Blueprint as Promise
[] open spec fn pid(&self) -> BuilderId { self.bid() }
[] open spec fn sb(&self) -> &B { self.builder.ar() }
//@ fn Blueprint as Promise::canned()
//@ ensures
[C13,C14] BCan::shares() && BCan::bin_ok(self.builder) ==> ret.can == BCan::canned(self.builder) && ret.can.uncanned() == self.builder && ctag(ret.can) == kind::<BCan, B>() && ret.can.addr() == self.bid().0
//@ at entry
proof { <BCan as Can<B>>::bin_clone(); BCan::shares_keeps(); }
//@ fn Blueprint::into_unsized()
//@ ensures
[C13] BCan::shares() && BCan::bin_ok(self.builder) ==> ret.bid() == self.bid() && ret.uwf()
//@ fn Blueprint as Clone::clone()
//@ ensures
[C13,C14] BCan::shares() ==> ret == *self
//@ at entry
proof { <BCan as Can<B>>::bin_clone(); }
//@ extra impl BuilderId as Hash
[] open spec fn key(&self) -> Seq<u64> { self.0.key() }
//@ extra impl Blueprint as Hash
[] open spec fn key(&self) -> Seq<u64> { seq![self.bid().0 as u64] }
//@ fn Blueprint as PartialEq::eq(other)
//@ ensures
[C13] ret == (self.bid() == other.bid())
//@ fn Blueprint as From<B>::from(builder)
//@ ensures
[C13] BCan::bin_val(ret.builder) == builder && BCan::fresh(ret.builder)

//@ fn BlueprintUnsized::new(builder)
//@ ensures
[C13] BCan::shares() && BCan::t_ok(builder) ==> ret.uwf() && ret.okc() && BCan::bin_val(ret.builder) == builder && BCan::fresh(ret.builder)
//@ fn BlueprintUnsized::new_binned(builder_bin)
//@ ensures
[C13,C14] BCan::shares() && BCan::bin_ok(builder_bin) ==> ret.builder == builder_bin && ret.builder_canned == BCan::canned(builder_bin) && ret.okc()
//@ at entry
proof { <BCan as Can<B>>::bin_clone(); BCan::shares_keeps(); }
//@ fn BlueprintUnsized::into_unsized()
//@ ensures
[C13] ret.bid() == self.bid() && (self.uwf() ==> ret.uwf())
//@ fn BlueprintUnsized::id()
//@ ensures
[C13] ret == self.bid()
//@ fn BlueprintUnsized::builder_ptr()
//@ ensures
[C13,C14] ret.addr() == self.bid().0
//@ fn BlueprintUnsized::new_unsized(builder)
//@ ensures
[C13] ret.uwf() && exists|b: <BCan as Can<B>>::Bin| #![trigger <BCan as CanSized<B>>::fresh(b)] <BCan as CanSized<B>>::fresh(b) && <BCan as CanSized<B>>::bin_val(b) == builder && ret.bid().0 == <BCan as Can<B>>::bin_addr(b)
//@ fn BlueprintUnsized::from_sized(blueprint)
//@ ensures
[C13] blueprint.uwf() ==> ret.bid() == blueprint.bid()
[C13] ret.uwf()
//@ fn BlueprintUnsized::from_sized_bp(blueprint)
//@ ensures
[C13] ret.bid() == blueprint.bid() && ret.uwf()
//@ extra impl BlueprintUnsized as Promise
[] open spec fn pid(&self) -> BuilderId { self.bid() }
[] open spec fn sb(&self) -> &B { self.builder.ar() }
//@ fn BlueprintUnsized as Promise::canned()
//@ ensures
[C13,C14] BCan::shares() ==> ret.can == self.builder_canned
//@ at entry
proof { BCan::can_clone(); }
//@ fn BlueprintUnsized as Clone::clone()
//@ ensures
[C13,C14] BCan::shares() ==> ret == *self
//@ at entry
proof { <BCan as Can<B>>::bin_clone(); BCan::can_clone(); }
//@ extra impl BlueprintUnsized as Hash
[] open spec fn key(&self) -> Seq<u64> { seq![self.bid().0 as u64] }
//@ fn BlueprintUnsized as PartialEq::eq(other)
//@ ensures
[C13] ret == (self.bid() == other.bid())
//@ fn BlueprintUnsized as From<Blueprint>::from(sized_bp)
//@ ensures
[C13] BCan::shares() && BCan::bin_ok(sized_bp.builder) ==> ret.bid() == sized_bp.bid() && ret.uwf()
//@ at entry
proof { <BCan as Can<B>>::bin_clone(); BCan::shares_keeps(); }
//@ fn BlueprintUnsized<dyn> as From<Blueprint>::from(builder)
//@ ensures
[C13] ret.bid() == builder.bid() && ret.uwf()
//@ fn BlueprintUnsized<dyn> as From<BlueprintUnsized>::from(builder)
//@ ensures
[C13] builder.uwf() ==> ret.bid() == builder.bid()
[C13] ret.uwf()
//@ fn BlueprintUnsized as From<B>::from(builder)
//@ ensures
[C13] BCan::shares() && BCan::t_ok(builder) ==> ret.uwf() && BCan::bin_val(ret.builder) == builder && BCan::fresh(ret.builder)

//@ fn BlueprintDyn::new(builder)
//@ ensures
[C13] ret.uwf() && exists|b: <BCan as Can<B>>::Bin| #![trigger <BCan as CanSized<B>>::fresh(b)] <BCan as CanSized<B>>::fresh(b) && <BCan as CanSized<B>>::bin_val(b) == builder && ret.bid().0 == <BCan as Can<B>>::bin_addr(b)
//@ fn BlueprintDyn::into_unsized()
//@ ensures
[C13] ret.bid() == self.bid() && (self.uwf() ==> ret.uwf())
//@ fn BlueprintDyn::id()
//@ ensures
[C13] ret == self.bid()
//@ fn BlueprintDyn::builder_ptr()
//@ ensures
[C13] ret.addr() == self.bid().0
//@ fn BlueprintDyn::from_bp(blueprint)
//@ ensures
[C13] ret.bid() == blueprint.bid() && ret.uwf()
//@ extra impl BlueprintDyn as Promise
[] open spec fn pid(&self) -> BuilderId { self.bid() }
[] open spec fn sb(&self) -> &DynBuilder<ArtCan, BCan, Art, Err, DynSt> { self.builder.ar() }
//@ fn BlueprintDyn as Promise::canned()
//@ ensures
[C13] BCan::shares() ==> ret.can == self.builder_canned
//@ at entry
proof { BCan::can_clone(); }

//@ fn BlueprintDyn as Clone::clone()
//@ ensures
[C13] BCan::shares() ==> ret == *self
//@ at entry
proof { <BCan as Can<DynBuilder<ArtCan, BCan, Art, Err, DynSt>>>::bin_clone(); BCan::can_clone(); }
//@ extra impl BlueprintDyn as Hash
[] open spec fn key(&self) -> Seq<u64> { seq![self.bid().0 as u64] }
//@ fn BlueprintDyn as PartialEq::eq(other)
//@ ensures
[C13] ret == (self.bid() == other.bid())
//@ fn BlueprintDyn as From<Blueprint>::from(blueprint)
//@ ensures
[C13] ret.bid() == blueprint.bid() && ret.uwf()

//@ fn BuilderArtifact as Clone::clone()
//@ ensures
[C14] call_ensures(BCan::clone, (&self.0,), ret.0)
//@ extra impl BuilderArtifact as CanBase
[] open spec fn addr(self) -> usize { self.0.addr() }
[] open spec fn shares() -> bool { BCan::shares() }
[] open spec fn keeps() -> bool { BCan::shares() }
[] proof fn shares_keeps() { }
[] #[verifier::external_body] // TRUSTED: `Self: Clone` is the impl of Clone above, whose contract (proved) says that the content is a clone of the content
 proof fn can_clone() where Self: Clone { }
//@ extra impl BuilderArtifact as Can
[] open spec fn bin_addr(b: Self::Bin) -> usize { b.bid().0 }
[] #[verifier::external_body] // TRUSTED: `Self::Bin: Clone` is the impl of Clone for the blueprint, whose contract (proved) says this
 proof fn bin_clone() where Self::Bin: Clone { }
//@ extra impl BuilderArtifact as CanSized
[] open spec fn bin_val(b: Self::Bin) -> Self::Bin { b }
[] open spec fn canned(b: Self::Bin) -> Self { BuilderArtifact(<Self::Bin as Canned<BCan>>::as_can(b)) }
[] open spec fn uncanned(self) -> Self::Bin { <Self::Bin as Canned<BCan>>::of_can(self.0) }
[] open spec fn content(self) -> Self::Bin { <Self::Bin as Canned<BCan>>::of_can(self.0) }
[] open spec fn t_ok(t: Self::Bin) -> bool { <Self::Bin as Canned<BCan>>::okc(t) }
[] open spec fn bin_ok(b: Self::Bin) -> bool { <Self::Bin as Canned<BCan>>::okc(b) }
[] open spec fn fresh(b: Self::Bin) -> bool { true }
//@ fn BuilderArtifact as CanSized::from_bin(b)
//@ at entry
proof { BCan::shares_keeps(); Ba_kind::<B, BCan>(); Ba_kindu::<B, BCan>(); }
//@ fn BuilderArtifact as CanSized::downcast_can()
//@ at entry
proof { BCan::shares_keeps(); Ba_kind::<B, BCan>(); Ba_kindu::<B, BCan>(); }
//@ extra impl RcAny as CanBase
[] open spec fn addr(self) -> usize { self.p.addr() }
[] open spec fn shares() -> bool { true }
[] open spec fn keeps() -> bool { true }
[] proof fn shares_keeps() { }
[] proof fn can_clone() where Self: Clone { }
//@ extra impl RcAny as Can
[] open spec fn bin_addr(b: Self::Bin) -> usize { b.p.addr() }
[] proof fn bin_clone() where Self::Bin: Clone { }
//@ extra impl RcAny as CanSized
[] open spec fn bin_val(b: Self::Bin) -> T { b.p.rval::<T>() }
[] open spec fn canned(b: Self::Bin) -> Self { Rc { p: b.p, t: PhantomData } }
[] open spec fn uncanned(self) -> Self::Bin { Rc { p: self.p, t: PhantomData } }
[] open spec fn content(self) -> T { self.p.rval::<T>() }
[] open spec fn t_ok(t: T) -> bool { true }
[] open spec fn bin_ok(b: Self::Bin) -> bool { true }
[] open spec fn fresh(b: Self::Bin) -> bool { b.p.born() }
//@ fn RcAny as CanSized::from_bin(b)
//@ at entry
proof { Rc_typed::<T>(); }
//@ fn RcAny as CanSized::downcast_can()
//@ at entry
proof { Rc_typed::<T>(); }
//@ extra impl RcAny as CanStrong
[] open spec fn waddr(w: Self::CanWeak) -> usize { w.p.addr() }
[] open spec fn wsrc(w: Self::CanWeak) -> Self { Rc { p: w.p, t: PhantomData } }
[] open spec fn dead(w: Self::CanWeak) -> bool { w.p.rdead() }
[] proof fn strong() { }
//@ extra impl ArcAny as CanBase
[] open spec fn addr(self) -> usize { self.p.addr() }
[] open spec fn shares() -> bool { true }
[] open spec fn keeps() -> bool { true }
[] proof fn shares_keeps() { }
[] proof fn can_clone() where Self: Clone { }
//@ extra impl ArcAny as Can
[] open spec fn bin_addr(b: Self::Bin) -> usize { b.p.addr() }
[] proof fn bin_clone() where Self::Bin: Clone { }
//@ extra impl ArcAny as CanSized
[] open spec fn bin_val(b: Self::Bin) -> T { b.p.rval::<T>() }
[] open spec fn canned(b: Self::Bin) -> Self { Arc { p: b.p, t: PhantomData } }
[] open spec fn uncanned(self) -> Self::Bin { Arc { p: self.p, t: PhantomData } }
[] open spec fn content(self) -> T { self.p.rval::<T>() }
[] open spec fn t_ok(t: T) -> bool { true }
[] open spec fn bin_ok(b: Self::Bin) -> bool { true }
[] open spec fn fresh(b: Self::Bin) -> bool { b.p.born() }
//@ fn ArcAny as CanSized::from_bin(b)
//@ at entry
proof { Arc_typed::<T>(); }
//@ fn ArcAny as CanSized::downcast_can()
//@ at entry
proof { Arc_typed::<T>(); }
//@ extra impl ArcAny as CanStrong
[] open spec fn waddr(w: Self::CanWeak) -> usize { w.p.addr() }
[] open spec fn wsrc(w: Self::CanWeak) -> Self { Arc { p: w.p, t: PhantomData } }
[] open spec fn dead(w: Self::CanWeak) -> bool { w.p.rdead() }
[] proof fn strong() { }
//@ extra impl BoxAny as CanBase
[] open spec fn addr(self) -> usize { self.p.addr() }
[] open spec fn shares() -> bool { false }
[] open spec fn keeps() -> bool { true }
[] proof fn shares_keeps() { }
[] proof fn can_clone() where Self: Clone { }
//@ extra impl BoxAny as Can
[] open spec fn bin_addr(b: Self::Bin) -> usize { b.p.addr() }
[] proof fn bin_clone() where Self::Bin: Clone { }
//@ extra impl BoxAny as CanSized
[] open spec fn bin_val(b: Self::Bin) -> T { b.p.rval::<T>() }
[] open spec fn canned(b: Self::Bin) -> Self { Box { p: b.p, t: PhantomData } }
[] open spec fn uncanned(self) -> Self::Bin { Box { p: self.p, t: PhantomData } }
[] open spec fn content(self) -> T { self.p.rval::<T>() }
[] open spec fn t_ok(t: T) -> bool { true }
[] open spec fn bin_ok(b: Self::Bin) -> bool { true }
[] open spec fn fresh(b: Self::Bin) -> bool { b.p.born() }
//@ fn BoxAny as CanSized::from_bin(b)
//@ at entry
proof { Box_typed::<T>(); }
//@ fn BoxAny as CanSized::downcast_can()
//@ at entry
proof { Box_typed::<T>(); }
