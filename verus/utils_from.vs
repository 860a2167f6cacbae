//@ drop fn RedeemingBuilder as Builder::build -- verified in unit core
//@ drop fn RedeemingBuilder as Builder::init_dyn_state -- verified in unit core
//@ drop fn FunctionalBuilder as Builder::build -- verified in unit core
//@ drop fn FunctionalBuilder as Builder::init_dyn_state -- verified in unit core
//@ drop fn ConstBuilder as Builder::build -- verified in unit core
//@ drop fn ConstBuilder as Builder::init_dyn_state -- verified in unit core
//@ drop fn ConfigurableBuilder as Builder::build -- verified in unit core
//@ drop fn ConfigurableBuilder as Builder::init_dyn_state -- verified in unit core
//@ drop fn ClonedBuilder as Builder::build -- verified in unit core
//@ drop fn ClonedBuilder as Builder::init_dyn_state -- verified in unit core
//@ drop fn ForwardingBuilder as Builder::build -- verified in unit core
//@ drop fn ForwardingBuilder as Builder::init_dyn_state -- verified in unit core
//@ drop fn FeigningBuilder as Builder::build -- verified in unit core
//@ drop fn FeigningBuilder as Builder::init_dyn_state -- verified in unit core
//@ fn Blueprint<ConstBuilder> as From<T>::from(t)
//@ ensures
[C15] ArtCan::bin_val(BCan::bin_val(ret.builder).inner) == t
[C13] BCan::fresh(ret.builder)
//@ fn Blueprint<ConfigurableBuilder> as From<T>::from(t)
//@ ensures
[C15] BCan::bin_val(ret.builder).initial == t
[C13] BCan::fresh(ret.builder)
//@ raw
impl<ArtCan, BCan, ArtBin, T> vstd::std_specs::convert::FromSpecImpl<T> for Blueprint<ConstBuilder<ArtCan, BCan, ArtBin, T>, BCan>
    where T: Clone + 'static, BCan: CanStrong + CanSized<ConstBuilder<ArtCan, BCan, ArtBin, T>>, ArtCan: CanSized<T, Bin = ArtBin> + 'static, ArtBin: Clone + 'static
{
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(t: T) -> Self;
}
impl<ArtCan, BCan, T> vstd::std_specs::convert::FromSpecImpl<T> for Blueprint<ConfigurableBuilder<ArtCan, BCan, T>, BCan>
    where T: Clone + 'static, BCan: CanStrong + CanSized<ConfigurableBuilder<ArtCan, BCan, T>>, ArtCan: 'static
{
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(t: T) -> Self;
}
