//@ module src/rc.rs rc
//@ module src/arc.rs arc
//@ module src/boxed.rs boxed
//@ drop type rc::Blueprint -- an alias that no function here uses
//@ drop type rc::BlueprintUnsized -- an alias that no function here uses
//@ drop type rc::DynamicBlueprint -- an alias that no function here uses
//@ drop type rc::ConstBuilder -- an alias that no function here uses
//@ drop type rc::ConfigurableBuilder -- an alias that no function here uses
//@ drop type rc::FunctionalBuilder -- an alias that no function here uses
//@ drop type rc::Cache -- an alias that no function here uses
//@ drop type rc::CacheOwned -- an alias that no function here uses
//@ drop type arc::Blueprint -- an alias that no function here uses
//@ drop type arc::BlueprintUnsized -- an alias that no function here uses
//@ drop type arc::DynamicBlueprint -- an alias that no function here uses
//@ drop type arc::ConstBuilder -- an alias that no function here uses
//@ drop type arc::ConfigurableBuilder -- an alias that no function here uses
//@ drop type arc::FunctionalBuilder -- an alias that no function here uses
//@ drop type arc::Cache -- an alias that no function here uses
//@ drop type arc::CacheOwned -- an alias that no function here uses
//@ drop type boxed::Blueprint -- an alias that no function here uses
//@ drop type boxed::BlueprintUnsized -- an alias that no function here uses
//@ drop type boxed::DynamicBlueprint -- an alias that no function here uses
//@ drop type boxed::ConstBuilder -- an alias that no function here uses
//@ drop type boxed::ConfigurableBuilder -- an alias that no function here uses
//@ drop type boxed::FunctionalBuilder -- an alias that no function here uses
//@ drop type boxed::Cache -- an alias that no function here uses
//@ drop type boxed::CacheOwned -- an alias that no function here uses
//@ raw
/// The resolver a build is given: here only what was done with it matters.
#[verifier::external_body]
#[verifier::reject_recursive_types(ArtCan)]
#[verifier::reject_recursive_types(BCan)]
#[verifier::reject_recursive_types(DynState)]
pub struct Resolver<'a, ArtCan, BCan, DynState = ()> { p: &'a PhantomData<(ArtCan, BCan, DynState)> }
/// All that was done with a resolver.
#[verifier::external_body]
pub struct Done { p: usize }
impl<'a, ArtCan, BCan, DynState> Resolver<'a, ArtCan, BCan, DynState> {
    pub uninterp spec fn done(&self) -> Done;
}
//@ extra trait Builder
[] spec fn inits(&self, d: Self::DynState) -> bool;
[] /// This builder's build, run on a resolver `o`, left it as `n` and returned `r`.
 spec fn built(&self, o: Done, n: Done, r: Result<ArtCan::Bin, Self::Err>) -> bool where ArtCan: Can<Self::Artifact>;
//@ fn Builder::build(cache)
//@ ensures
[C15] self.built(old(cache).done(), final(cache).done(), ret)
//@ fn Builder::init_dyn_state()
//@ ensures
[C15] self.inits(ret)
//@ extra trait rc::SimpleBuilder
[] /// This builder's build, run on a resolver `o`, left it as `n` and yielded `a`.
 spec fn yields(&self, o: Done, n: Done, a: Self::Artifact) -> bool;
//@ fn rc::SimpleBuilder::build(resolver)
//@ ensures
[C15] self.yields(old(resolver).done(), final(resolver).done(), ret)
//@ extra trait rc::Builder
[] spec fn inits(&self, d: Self::DynState) -> bool;
[] spec fn built(&self, o: Done, n: Done, r: Result<BinType<Self::Artifact>, Self::Err>) -> bool;
//@ fn rc::Builder::build(resolver)
//@ ensures
[C15] self.built(old(resolver).done(), final(resolver).done(), ret)
//@ fn rc::Builder::init_dyn_state()
//@ ensures
[C15] self.inits(ret)
//@ extra impl rc::B as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Exactly what the simplified builder yields.
 open spec fn built(&self, o: Done, n: Done, r: Result<BinType<Self::Artifact>, Never>) -> bool {
   r matches Ok(b) && SimpleBuilder::yields(self, o, n, <RcAny as CanSized<B::Artifact>>::bin_val(b))
 }
//@ fn rc::B as Builder::build(cache)
//@ fn rc::B as Builder::init_dyn_state()
//@ extra impl rc::B as root::Builder
[] open spec fn inits(&self, d: Self::DynState) -> bool { Builder::inits(self, d) }
[] /// Exactly what the builder returns.
 open spec fn built(&self, o: Done, n: Done, r: Result<<RcAny as Can<Self::Artifact>>::Bin, Self::Err>) -> bool { Builder::built(self, o, n, r) }
//@ fn rc::B as root::Builder::build(cache)
//@ fn rc::B as root::Builder::init_dyn_state()
//@ extra trait arc::SimpleBuilder
[] /// This builder's build, run on a resolver `o`, left it as `n` and yielded `a`.
 spec fn yields(&self, o: Done, n: Done, a: Self::Artifact) -> bool;
//@ fn arc::SimpleBuilder::build(resolver)
//@ ensures
[C15] self.yields(old(resolver).done(), final(resolver).done(), ret)
//@ extra trait arc::Builder
[] spec fn inits(&self, d: Self::DynState) -> bool;
[] spec fn built(&self, o: Done, n: Done, r: Result<BinType<Self::Artifact>, Self::Err>) -> bool;
//@ fn arc::Builder::build(resolver)
//@ ensures
[C15] self.built(old(resolver).done(), final(resolver).done(), ret)
//@ fn arc::Builder::init_dyn_state()
//@ ensures
[C15] self.inits(ret)
//@ extra impl arc::B as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Exactly what the simplified builder yields.
 open spec fn built(&self, o: Done, n: Done, r: Result<BinType<Self::Artifact>, Never>) -> bool {
   r matches Ok(b) && SimpleBuilder::yields(self, o, n, <ArcAny as CanSized<B::Artifact>>::bin_val(b))
 }
//@ fn arc::B as Builder::build(cache)
//@ fn arc::B as Builder::init_dyn_state()
//@ extra impl arc::B as root::Builder
[] open spec fn inits(&self, d: Self::DynState) -> bool { Builder::inits(self, d) }
[] /// Exactly what the builder returns.
 open spec fn built(&self, o: Done, n: Done, r: Result<<ArcAny as Can<Self::Artifact>>::Bin, Self::Err>) -> bool { Builder::built(self, o, n, r) }
//@ fn arc::B as root::Builder::build(cache)
//@ fn arc::B as root::Builder::init_dyn_state()
//@ extra trait boxed::SimpleBuilder
[] /// This builder's build, run on a resolver `o`, left it as `n` and yielded `a`.
 spec fn yields(&self, o: Done, n: Done, a: Self::Artifact) -> bool;
//@ fn boxed::SimpleBuilder::build(resolver)
//@ ensures
[C15] self.yields(old(resolver).done(), final(resolver).done(), ret)
//@ extra trait boxed::Builder
[] spec fn inits(&self, d: Self::DynState) -> bool;
[] spec fn built(&self, o: Done, n: Done, r: Result<BinType<Self::Artifact>, Self::Err>) -> bool;
//@ fn boxed::Builder::build(resolver)
//@ ensures
[C15] self.built(old(resolver).done(), final(resolver).done(), ret)
//@ fn boxed::Builder::init_dyn_state()
//@ ensures
[C15] self.inits(ret)
//@ extra impl boxed::B as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Exactly what the simplified builder yields.
 open spec fn built(&self, o: Done, n: Done, r: Result<BinType<Self::Artifact>, Never>) -> bool {
   r matches Ok(b) && SimpleBuilder::yields(self, o, n, <BoxAny as CanSized<B::Artifact>>::bin_val(b))
 }
//@ fn boxed::B as Builder::build(cache)
//@ fn boxed::B as Builder::init_dyn_state()
//@ extra impl boxed::B as root::Builder
[] open spec fn inits(&self, d: Self::DynState) -> bool { Builder::inits(self, d) }
[] /// Exactly what the builder returns.
 open spec fn built(&self, o: Done, n: Done, r: Result<<BoxAny as Can<Self::Artifact>>::Bin, Self::Err>) -> bool { Builder::built(self, o, n, r) }
//@ fn boxed::B as root::Builder::build(cache)
//@ fn boxed::B as root::Builder::init_dyn_state()
