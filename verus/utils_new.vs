//@ attrs struct FunctionalBuilder #[verifier::reject_recursive_types(F)]
//@ attrs struct RedeemingBuilder #noderive
//@ attrs struct ClonedBuilder #noderive
//@ attrs struct ForwardingBuilder #noderive
//@ attrs struct FeigningBuilder #noderive
//@ fn RedeemingBuilder::new(inner, default_value)
//@ ensures
[C15] ret.inner == inner && ret.default_value == default_value
//@ fn FunctionalBuilder::new(f)
//@ ensures
[C15] ret.inner == f
//@ fn FunctionalBuilder::with_state(initial_state, f)
//@ ensures
[C15] ret.inner == f && ret.initial_state == initial_state
//@ fn ConstBuilder::new(artifact_bin)
//@ ensures
[C15] ret.inner == artifact_bin
//@ fn ConfigurableBuilder::new(artifact)
//@ ensures
[C15] ret.initial == artifact
//@ fn ClonedBuilder::new(inner)
//@ ensures
[C15] ret.inner == inner
//@ fn ForwardingBuilder::new(inner)
//@ ensures
[C15] ret.inner == inner
//@ fn FeigningBuilder::new(inner)
//@ ensures
[C15] ret.inner == inner
