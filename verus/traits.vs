//@ raw
pub type Id = BuilderId;

pub mod kinds {
use super::*;
/// The type of a value as a ghost number (`TypeId`).
pub uninterp spec fn tag<T: ?Sized>() -> int;
/// What a can of type C holding a T is tagged with: for the standard containers the type T.
pub uninterp spec fn kind<C, T: ?Sized>() -> int;
/// The tag of a can.
pub uninterp spec fn ctag<C>(c: C) -> int;
}
pub use kinds::*;

/// A panic in the code: must be unreachable.
#[verifier::external_body]
pub fn v_panic() -> !
    requires false,
{ panic!() }
/// A documented panic in the code: the function ends here.
#[verifier::external_body] // TRUSTED: a panic does not return
pub fn v_died() -> !
    ensures false,
{ panic!() }

/// Whether the crate is built with debug assertions.
pub uninterp spec fn is_debug() -> bool;
#[verifier::external_body] // TRUSTED: cfg!(debug_assertions) is the same everywhere in a build
pub fn v_debug() -> (r: bool)
    ensures r == is_debug(),
{ cfg!(debug_assertions) }

// ---------------------------------------------------------------- pointers
#[verifier::external_body]
pub struct DynPtr { p: *const () }
#[verifier::external_body]
pub struct ThinPtr { p: *const () }
impl DynPtr {
    pub uninterp spec fn addr(self) -> usize;
    #[verifier::external_body] // TRUSTED: casting a fat pointer to a thin one keeps the address
    pub fn v_thin(self) -> (r: ThinPtr)
        ensures r.addr() == self.addr(),
    { panic!() }
    pub fn v_dynptr(self) -> (r: DynPtr)
        ensures r == self,
    { self }
    #[verifier::external_body] // TRUSTED: casting a fat pointer to a pointer to a sized type keeps the address
    pub fn v_ptr(self) -> (r: ThinPtr)
        ensures r.addr() == self.addr(),
    { panic!() }
}
impl ThinPtr {
    pub uninterp spec fn addr(self) -> usize;
    pub fn v_thin(self) -> (r: ThinPtr)
        ensures r == self,
    { self }
    pub fn v_ptr(self) -> (r: ThinPtr)
        ensures r == self,
    { self }
    #[verifier::external_body] // TRUSTED: unsizing a pointer keeps the address
    pub fn v_dynptr(self) -> (r: DynPtr)
        ensures r.addr() == self.addr(),
    { panic!() }
    #[verifier::external_body] // TRUSTED: casting a pointer to usize yields its address
    pub fn v_usize(self) -> (r: usize)
        ensures r == self.addr(),
    { self.p as usize }
}
impl PartialEq for ThinPtr {
    #[verifier::external_body] // TRUSTED: pointers to sized types are equal iff their addresses are
    fn eq(&self, other: &Self) -> bool { panic!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ThinPtr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.addr() == other.addr() }
}
/// std::ptr::eq
pub fn v_ptr_eq(a: ThinPtr, b: ThinPtr) -> (r: bool)
    ensures r == (a.addr() == b.addr()),
{ a == b }

pub trait VThin: Sized {
    spec fn at(self) -> usize;
    fn v_thin(self) -> (r: ThinPtr)
        ensures r.addr() == self.at();
}
impl VThin for usize {
    open spec fn at(self) -> usize { self }
    #[verifier::external_body] // TRUSTED: casting an address to a pointer keeps it
    fn v_thin(self) -> (r: ThinPtr) { panic!() }
}

//@ extra trait CanBase
[] /// Address of the canned value.
 spec fn addr(self) -> usize;
[] /// Clones of a can, or of a bin, share the value.
 spec fn shares() -> bool;
[] /// Canning a bin keeps the value in place.
 spec fn keeps() -> bool;
[] proof fn shares_keeps()
   ensures Self::shares() ==> Self::keeps();
[] proof fn can_clone() where Self: Clone
   ensures Self::shares() ==> forall|a: Self, b: Self| #[trigger] call_ensures(Self::clone, (&a,), b) ==> a == b;
//@ fn CanBase::can_as_ptr()
//@ ensures
[C13,C14] ret.addr() == self.addr()
//@ extra trait Can
[] spec fn bin_addr(b: Self::Bin) -> usize;
[] proof fn bin_clone() where Self::Bin: Clone
   ensures Self::shares() ==> forall|a: Self::Bin, b: Self::Bin| #[trigger] call_ensures(<Self::Bin as Clone>::clone, (&a,), b) ==> a == b;
//@ fn Can::bin_as_ptr(b)
//@ ensures
[C13,C14] ret.addr() == Self::bin_addr(*b)
//@ extra trait CanSized
[] /// The value in a bin, the can of a bin, the bin of a can, the value in a can.
 spec fn bin_val(b: Self::Bin) -> T;
[] spec fn canned(b: Self::Bin) -> Self;
[] spec fn uncanned(self) -> Self::Bin;
[] spec fn content(self) -> T;
[] /// Well-formed values and bins.
 spec fn t_ok(t: T) -> bool;
[] spec fn bin_ok(b: Self::Bin) -> bool;
[] /// The bin was made of a value of its own.
 spec fn fresh(b: Self::Bin) -> bool;
//@ fn CanSized::into_bin(t)
//@ ensures
[C14] Self::bin_val(ret) == t && (Self::t_ok(t) ==> Self::bin_ok(ret))
[C13] Self::fresh(ret)
//@ fn CanSized::from_inner(t)
//@ ensures
[C14] Self::keeps() && Self::t_ok(t) ==> ctag(ret) == kind::<Self, T>() && ret.content() == t
//@ fn CanSized::from_bin(b)
//@ ensures
[C14] Self::keeps() && Self::bin_ok(b) ==> ret == Self::canned(b) && ret.uncanned() == b && ctag(ret) == kind::<Self, T>()
[C14,C13] Self::keeps() && Self::bin_ok(b) ==> ret.content() == Self::bin_val(b)
[C14,C13] Self::keeps() ==> ret.addr() == Self::bin_addr(b)
//@ fn CanSized::downcast_can()
//@ ensures
[C14] ret.is_some() == (ctag(self) == kind::<Self, T>())
[C14] Self::keeps() ==> (ret matches Some(b) ==> Self::bin_ok(b) && b == self.uncanned() && Self::canned(b) == self && Self::bin_val(b) == self.content() && Self::bin_addr(b) == self.addr())
//@ extra trait CanStrong
[] spec fn waddr(w: Self::CanWeak) -> usize;
[] /// The can a weak handle was made of.
 spec fn wsrc(w: Self::CanWeak) -> Self;
[] /// No strong reference is left (and thus there never will be one again).
 spec fn dead(w: Self::CanWeak) -> bool;
[] proof fn strong()
   ensures Self::shares() && Self::keeps();
//@ fn CanStrong::downgrade()
//@ ensures
[C14] Self::waddr(ret) == self.addr() && Self::wsrc(ret) == *self
//@ fn CanStrong::upgrade_from_weak(weak)
//@ ensures
[C14,C08] ret.is_none() == Self::dead(*weak)
[C14] ret matches Some(c) ==> c.addr() == Self::waddr(*weak) && c == Self::wsrc(*weak)
//@ fn CanRef::downcast_can_ref()
//@ ensures
[C14] ret.is_some() == (ctag(*self) == kind::<Self, T>())
[C14] ret matches Some(v) ==> *v == self.content()
//@ fn CanRefMut::downcast_can_mut()
//@ ensures
[C14] ctag(*old(self)) != kind::<Self, T>() ==> ret.is_none() && *final(self) == *old(self)
[C14] ctag(*old(self)) == kind::<Self, T>() ==> (ret matches Some(v) && *v == old(self).content() && ctag(*final(self)) == kind::<Self, T>() && final(self).addr() == old(self).addr()
  && final(self).content() == *final(v) && (*final(v) == *v ==> *final(self) == *old(self)))

//@ extra trait Promise
[] spec fn pid(&self) -> BuilderId;
[] spec fn sb(&self) -> &Self::Builder;
//@ fn Promise::id()
//@ ensures
[C13] ret == self.pid()
//@ fn Promise::builder()
//@ ensures
[C13] ret.builder == self.sb()
//@ fn Promise::canned()
//@ ensures
[C13] Self::BCan::shares() ==> ret.can.addr() == self.pid().0

//@ attrs struct BuilderId #expand
//@ raw
impl vstd::std_specs::cmp::PartialEqSpecImpl for BuilderId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.0 == other.0 }
}
//@ fn BuilderId as Clone::clone()
//@ ensures
[C13] ret == *self
//@ fn BuilderId as PartialEq::eq(other)
//@ ensures
[C13] ret == (self.0 == other.0)
//@ fn BuilderId::new(ptr)
//@ ensures
[C13] ret.0 == ptr.addr()
