//@ raw
broadcast use {ax::bid_key, vstd::std_specs::hash::group_hash_axioms, relax::group_rel};
//@ drop impl BuilderId as Hash -- verified in unit cans
//@ attrs struct BuilderId #[derive(Hash)]
//@ drop impl RcAny* -- verified in unit cans
//@ drop impl ArcAny* -- verified in unit cans
//@ drop impl BoxAny* -- verified in unit cans
//@ drop impl Blueprint* -- verified in unit cans
//@ drop struct Blueprint* -- verified in unit cans
//@ drop type BuilderDyn -- verified in unit cans
//@ drop trait CanBuilder -- verified in unit cans
//@ drop trait CanUnsized -- verified in unit cans
//@ drop type DynBuilderBin -- verified in unit cans
//@ drop impl BuilderArtifact* -- verified in unit cans
//@ drop struct BuilderArtifact -- verified in unit cans
