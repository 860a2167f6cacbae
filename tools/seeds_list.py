INT = 'src/cache/internal.rs'
CACHE = 'src/cache.rs'

seed('untracked-failed-dependency', 'C04',
     [(INT, '''		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''', '''		// Nothing can depend on an artifact that does not exist
		if art_res.is_err() {
			for user in self.dependents.remove(&ent.id()).into_iter().flatten() {
				if let Some(set) = self.dependencies.get_mut(&user) {
					set.remove(&ent.id());
				}
			}
			self.known_leaf_builder.insert(ent.id());
		}

		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''')],
     '''
fn main() {
    let (b, ib) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ib.fail.set(true);
    ia.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    // a is built although its dependency fails
    assert_eq!(*c.get(&a).unwrap(), ("a", 1));
    // now b could be built, its users are outdated
    ib.fail.set(false);
    c.invalidate(&b);
    assert_eq!(*c.get(&a).unwrap(), ("a", 2));
}
''', 'a builder that tolerates the failure of a dependency, followed by an invalidation of that dependency',
     'a failed resolve is not tracked, so the tolerant user survives the invalidation of the failed dependency')

seed('stale-dependent-after-deep-invalidation', 'C03',
     [(INT, '''			// Remove dependencies too
			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set {''', '''			// Remove dependencies too
			if let Some(set) = self.dependencies.remove(&bid) {
				// Mappings of builders which are not built (any more) need no clean up
				let is_built = self.artifacts.contains_key(&bid);
				for dep in set.into_iter().filter(|_| is_built) {''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ia.fail.set(true);
    let mut c = rc::CacheOwned::new();
    // fails after having used b
    assert!(c.get(&a).is_err());
    c.invalidate(&a);
    // a is now built without b
    ia.fail.set(false);
    ia.deps.borrow_mut().clear();
    assert_eq!(*c.get(&a).unwrap(), ("a", 2));
    c.invalidate(&b);
    assert!(c.lookup(&a).is_some(), "a did not use b since it was invalidated");
    assert_eq!(*c.get(&a).unwrap(), ("a", 2));
}
''', 'a failed build that resolved something, an invalidation of the failed builder, and a rebuild with other dependencies',
     'dependencies of a builder without artifact are forgotten on one side only, so a later invalidation of the former dependency drops an artifact that does not depend on it')

seed('unused-states-cleared-with-artifacts', 'C05',
     [(INT, '''		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();

		// Now, all know''', '''		// States of builders that have not been built (any more) are of no use
		let artifacts = &self.artifacts;
		self.dyn_states.retain(|bid, _| artifacts.contains_key(bid));

		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();

		// Now, all know''')],
     '''
fn main() {
    let (a, _) = node("a", &[]);
    let mut c = rc::CacheOwned::new();
    c.get(&a).unwrap();
    *c.dyn_state_mut(&a) = 7;
    c.clear_artifacts();
    assert_eq!(c.get_dyn_state(&a), Some(&7));
}
''', 'a dynamic state set while its builder has no artifact, followed by clearing the artifacts',
     'clearing the artifacts drops the dynamic state of builders without artifact')

seed('failure-invalidates-users', 'C06',
     [(INT, '''		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''', '''		// A failed builder does not depend on anything yet
		if art_res.is_err() && self.dependencies.contains_key(&ent.id()) {
			self.invalidate_by_id(&ent.id());
		}

		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''')],
     '''
fn main() {
    let (x, _) = node("x", &[]);
    let (b, ib) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ib.fail.set(true);
    ia.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&a).unwrap(), ("a", 1));
    // b fails again, now after having used x: nobody has asked for any invalidation
    ib.deps.borrow_mut().push(x);
    assert!(c.get(&b).is_err());
    assert_eq!(c.lookup(&a).map(|x| x.1), Some(1));
}
''', 'a cached artifact of a user that tolerated the failure of its dependency, and a second failing build of that dependency with dependencies of its own',
     'a failing build drops the artifacts of builders that tolerated its earlier failure')

seed('cached-dependency-stays-leaf', 'C07',
     [(INT, '''		// Unmark the promise as leaf, since it has now at least one depenency
		self.known_leaf_builder.remove(&promise.id());''', '''		// Unmark the promise as leaf, since it has now at least one depenency
		if !self.contains_artifact(promise) {
			self.known_leaf_builder.remove(&promise.id());
		}''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    let mut c = rc::CacheOwned::new();
    c.get(&b).unwrap();
    c.get(&a).unwrap();
    // nobody holds b any more, but a is still held and keeps its artifact
    ia.deps.borrow_mut().clear();
    drop(b);
    c.garbage_collection();
    assert_eq!(c.lookup(&a).map(|x| x.1), Some(1), "the collection touched a reachable builder");
}
''', 'a dependency that had been cached before its user was built, and which is dropped while the user is kept',
     'the garbage collection takes an unreachable builder with reachable dependents for a leaf and drops the artifact of the reachable dependent')

seed('purge-keeps-leaf-mark', 'C09',
     [(INT, '''		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);

		// Purge artifact & dyn state
		self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);

		// Invalidate dependents
		self.invalidate_by_id(&promise.id());
''', '''		self.known_leaf_builder.remove(&bid);

		// Purge artifact & dyn state
		self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);

		// Invalidate dependents
		self.invalidate_by_id(&promise.id());
		self.known_builders.remove(&bid);
''')],
     '''
fn main() {
    let (a, _) = node("a", &[]);
    let mut c = rc::CacheOwned::new();
    c.get(&a).unwrap();
    c.purge(&a);
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
''', 'a garbage collection after a purge',
     'the invalidation inside of purge lists the purged builder as leaf again, so the next garbage collection panics')

seed('mutable-access-to-leaf-list', 'C12',
     [(INT, '''		if self.lookup_mut(promise).is_some() {
			// Here, requires a second look up because due to the build in the
			// else case, an `if let Some(_)` won't work due to lifetime issues
			Ok(self.lookup_mut(promise).unwrap())
''', '''		if self.contains_artifact(promise) {
			// Builders without artifact can not depend on this one
			let id = promise.id();
			let users: Vec<_> = self.dependents.get(&id).into_iter().flatten()
				.filter(|user| self.artifacts.contains_key(user))
				.copied()
				.collect();
			users.iter().for_each(|user| self.invalidate_by_id(user));

			Ok(self.artifacts.get_mut(&id).unwrap().downcast_can_mut()
				.expect("Cached artifact is of invalid type"))
''')],
     '''
use daab::boxed;
#[derive(Debug)]
struct Leaf;
impl boxed::Builder for Leaf {
    type Artifact = u32;
    type DynState = ();
    type Err = String;
    fn build(&self, _: &mut boxed::Resolver) -> Result<Box<u32>, String> { Ok(Box::new(1)) }
    fn init_dyn_state(&self) {}
}
#[derive(Debug)]
struct Mid { leaf: boxed::Blueprint<Leaf> }
impl boxed::Builder for Mid {
    type Artifact = u32;
    type DynState = ();
    type Err = String;
    fn build(&self, r: &mut boxed::Resolver) -> Result<Box<u32>, String> {
        r.resolve_ref(&self.leaf)?;
        // fails always, but only after it has looked at the leaf
        Err("mid".into())
    }
    fn init_dyn_state(&self) {}
}
/// Takes the leaf's value through the failing mid, that is by a direct look at it as well
#[derive(Debug)]
struct Top { mid: boxed::Blueprint<Mid> }
impl boxed::Builder for Top {
    type Artifact = u32;
    type DynState = ();
    type Err = String;
    fn build(&self, r: &mut boxed::Resolver) -> Result<Box<u32>, String> {
        Ok(Box::new(if r.resolve_ref(&self.mid).is_ok() { 1 } else { 2 }))
    }
    fn init_dyn_state(&self) {}
}
fn main() {
    let leaf = boxed::Blueprint::new(Leaf);
    let mid = boxed::Blueprint::new(Mid { leaf: leaf.clone() });
    let top = boxed::Blueprint::new(Top { mid });
    let mut c = boxed::CacheOwned::new();
    assert_eq!(c.get_ref(&top), Ok(&2));
    *c.get_mut(&leaf).unwrap() = 7;
    assert_eq!(c.lookup_ref(&top), None, "top used leaf through mid");
}
''', 'a dependent that failed (so it has no artifact) between the modified builder and a cached user that tolerated the failure',
     'get_mut of a cached artifact does not drop users that depend on it through a builder without artifact')

seed('clear-artifacts-keeps-reverse-mapping', 'C11',
     [(INT, '''		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();

		// Now, all know builders are leafs!
		self.known_leaf_builder.extend(self.known_builders.keys());
''', '''		// Now, all builders with artifact are leafs!
		self.known_leaf_builder.extend(self.artifacts.keys());

		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();
''')],
     '''
fn main() {
    let mut c = rc::CacheOwned::new();
    {
        let (b, ib) = node("b", &[]);
        let (a, ia) = node("a", &[&b]);
        ib.fail.set(true);
        ia.tolerate.set(true);
        c.get(&a).unwrap();
        // b has no artifact, and is no leaf
        c.clear_artifacts();
    }
    assert_eq!(c.number_of_known_builders(), 2);
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
''', 'a failed dependency of a cached artifact when the artifacts are cleared', 'a builder is not listed as leaf any more and never collected')

seed('purge-of-absent-artifact', 'C10',
     [(INT, '''		// Remove weak reference of builder since we will remove all references
		// to it
		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);
''', '''		// Remove weak reference of builder since we will remove all references
		// to it
		if self.known_leaf_builder.remove(&bid) || self.contains_artifact(promise) {
			self.known_builders.remove(&bid);
		}
''')],
     '''
fn main() {
    let (b, ib) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ib.fail.set(true);
    ia.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    c.get(&a).unwrap();
    assert!(c.is_builder_known(&b));
    c.purge(&b);
    assert!(!c.is_builder_known(&b), "purged");
    assert_eq!(c.number_of_known_builders(), 1);
}
''', 'purging a builder that has dependents but no artifact (it failed)', 'such a builder stays known after it was purged')

seed('lookup-mut-records', 'C01',
     [(INT, '''		let id = promise.id();

		// Since the user chose''', '''		let id = promise.id();

		// Here, the builder will be recorded, if it is not yet
		self.make_builder_known(promise);

		// Since the user chose''')],
     """
fn main() {
    #[derive(Debug)]
    struct Leaf;
    impl daab::boxed::SimpleBuilder for Leaf {
        type Artifact = u32;
        fn build(&self, _: &mut daab::boxed::Resolver) -> u32 { 1 }
    }
    let a = daab::boxed::Blueprint::new(Leaf);
    let mut c = daab::boxed::CacheOwned::new();
    assert!(c.lookup_mut(&a).is_none());
    assert_eq!(c.number_of_known_builders(), 0, "a lookup adds nothing");
}
""", 'a mutable lookup of a builder that is not yet known', 'lookup_mut of an absent artifact adds a record to the cache')

seed('failed-users-cut-the-chain', 'C02',
     [(INT, '''				for dep in set {
					pending.push(dep);
				}''', '''				for dep in set {
					// Users without artifact have nothing to invalidate
					if self.artifacts.contains_key(&dep) {
						pending.push(dep);
					} else {
						self.dependencies.remove(&dep);
						self.known_leaf_builder.insert(dep);
					}
				}''')],
     """
fn main() {
    let (x, _) = node("x", &[]);
    let (b, ib) = node("b", &[&x]);
    let (a, ia) = node("a", &[&b]);
    ib.fail.set(true);
    ia.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&a).unwrap(), ("a", 1));
    c.invalidate(&x);
    assert!(c.lookup(&a).is_none(), "a used x through b");
}
""", 'a failed builder between the invalidated one and a cached artifact whose builder tolerated the failure',
     'the invalidation does not go on through builders without artifact')

seed('leaf-only-if-built', 'C08',
     [(INT, '''				let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf {''', '''				let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf && self.artifacts.contains_key(&dep) {''')],
     """
fn main() {
    let mut c = rc::CacheOwned::new();
    {
        let (b, ib) = node("b", &[]);
        let (a, ia) = node("a", &[&b]);
        ib.fail.set(true);
        ia.tolerate.set(true);
        c.get(&a).unwrap();
    }
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
""", 'a dependency without artifact (it failed) that loses its last user, and is dropped', 'such a dependency does not become a leaf, so it is never collected (and debug builds panic in the collection)')

seed('repeated-request-unreported', 'C16',
     [(INT, '''		// Map dependents (`promise` has new dependent `user`)
		self.dependents.entry(promise.id())
			.or_insert_with(HashSet::new)
			.insert(user.id());
''', '''		// Map dependents (`promise` has new dependent `user`)
		let _new_edge = self.dependents.entry(promise.id())
			.or_insert_with(HashSet::new)
			.insert(user.id());
'''), (INT, '''		#[cfg(feature = "diagnostics")]
		self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));

	}
''', '''		#[cfg(feature = "diagnostics")]
		if _new_edge {
			self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));
		}

	}
''')],
     '''
fn main() {
    let (b, _ib) = node("b", &[]);
    let (a, _ia) = node("a", &[&b, &b]);
    let mut c = daab::cache::Cache::new_with_doctor(Rec::default());
    c.get(&a).unwrap();
    let r = format!("resolve {:?} {:?}", a.id(), b.id());
    assert_eq!(c.doctor().0.iter().filter(|e| **e == r).count(), 2);
}
''', 'a builder that requests the same other builder more than once in its build (or again after it failed before)',
     'only the first request of a builder by another is reported', feats='"diagnostics"', pre='node.rs rec.rs')

seed('purge-of-absent-unreported', 'C16',
     [(INT, '''		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);

		// Purge artifact & dyn state
		self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);

		// Invalidate dependents
		self.invalidate_by_id(&promise.id());

		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate''', '''		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);

		// Purge artifact & dyn state
		let _purged = self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);

		// Invalidate dependents
		self.invalidate_by_id(&promise.id());

		#[cfg(feature = "diagnostics")]
		if _purged.is_some() {
			self.doctor.invalidate'''), (INT, '''BuilderHandle::new(promise));
	}

	/// Deletes all artifacts of this cache.''', '''BuilderHandle::new(promise));
		}
	}

	/// Deletes all artifacts of this cache.''')],
     '''
fn main() {
    let (a, ia) = node("a", &[]);
    ia.fail.set(true);
    let mut c = daab::cache::Cache::new_with_doctor(Rec::default());
    c.get(&a).unwrap_err();
    c.purge(&a);
    assert_eq!(c.doctor().0, [format!("invalidate {:?}", a.id())]);
}
''', 'the purge of a builder without artifact (never built, failed or invalidated)',
     'a purge is only reported if an artifact goes', feats='"diagnostics"', pre='node.rs rec.rs')

CAN = 'src/canning.rs'
BP = 'src/blueprint.rs'

seed('stale-state-for-new-tenant', 'C13',
     [(INT, '''		self.dependencies.clear();

		// Now, all know builders are leafs!
		self.known_leaf_builder.extend(self.known_builders.keys());
''', '''		self.dependencies.clear();

		// There is nothing left to be dropped for builders which are gone
		self.known_builders.retain(|_, weak| BCan::upgrade_from_weak(weak).is_some());

		// Now, all know builders are leafs!
		self.known_leaf_builder.clear();
		self.known_leaf_builder.extend(self.known_builders.keys());
''')],
     '''
fn main() {
    let mut c = rc::CacheOwned::new();
    let (a, ia) = node("a", &[]);
    let id = a.id();
    *c.dyn_state_mut(&a) = 7;
    drop(a);
    c.clear_artifacts();
    // another builder, possibly in the same place
    let mut held = vec![];
    for _ in 0..100 {
        let (b, ib) = node("b", &[]);
        let same = b.id() == id;
        assert_eq!(*c.dyn_state(&b), 100, "another builder's state");
        held.push((b, ib));
        if same { break }
    }
    drop(ia);
}
''', 'a builder with dynamic state is dropped, the artifacts are cleared, and then a new builder is created that takes its place in memory',
     'clearing the artifacts forgets the records of builders that are gone but leaves their dynamic states')

seed('zero-sized-blueprints-equal', 'C13',
     [(BP, '''impl<B, BCan: Can<B>> PartialEq for Blueprint<B, BCan> {
	fn eq(&self, other: &Self) -> bool {
		self.id().eq(&other.id())
	}
}''', '''impl<B, BCan: Can<B>> PartialEq for Blueprint<B, BCan> {
	fn eq(&self, other: &Self) -> bool {
		// Builders without any content can not be told apart
		std::mem::size_of::<B>() == 0 || self.id().eq(&other.id())
	}
}''')],
     '''
#[derive(Debug)]
struct Zst;
impl rc::SimpleBuilder for Zst {
    type Artifact = u8;
    fn build(&self, _: &mut rc::Resolver) -> u8 { 1 }
}
fn main() {
    let (a, b): (rc::Blueprint<Zst>, rc::Blueprint<Zst>) = (rc::Blueprint::new(Zst), rc::Blueprint::new(Zst));
    assert!(a == a.clone() && b == b.clone());
    assert!(a != b, "separately created");
}
''', 'two blueprints of a zero-sized builder type', 'separately created blueprints of zero-sized builders compare equal')

seed('unsized-blueprint-hash', 'C13',
     [(BP, '''		impl<B: ?Sized, BCan: Can<B>> Hash for BlueprintUnsized<B, BCan> {
			fn hash<H: Hasher>(&self, state: &mut H) {
				self.id().hash(state);
			}
		}''', '''		impl<B: ?Sized, BCan: Can<B>> Hash for BlueprintUnsized<B, BCan> {
			fn hash<H: Hasher>(&self, state: &mut H) {
				std::any::type_name::<B>().hash(state);
				self.id().hash(state);
			}
		}''')],
     '''
use std::hash::{Hash, Hasher};
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn main() {
    let (a, _) = node("a", &[]);
    let u: rc::BlueprintUnsized<Node> = a.clone().into();
    assert_eq!(hash(&a), hash(&u));
    assert_eq!(hash(&u), hash(&u.clone()));
}
''', 'a blueprint and its conversion to an unsized one used as hash keys', 'a converted blueprint has another hash than the original', feats='"unsized"', tool='nightly')

seed('canned-blueprint-address', 'C14',
     [(CAN, '''		impl<BCan: CanBase + 'static> CanBase for BuilderArtifact<BCan> {
			fn can_as_ptr(&self) -> *const dyn Any {
				self.0.can_as_ptr()
			}
		}''', '''		impl<BCan: CanBase + 'static> CanBase for BuilderArtifact<BCan> {
			fn can_as_ptr(&self) -> *const dyn Any {
				&self.0
			}
		}''')],
     '''
use daab::canning::*;
type Ba = BuilderArtifact<rc::CanType>;
fn main() {
    let (a, _) = node("a", &[]);
    let bin = <Ba as CanSized<Bp>>::into_bin(a);
    let at = <Ba as Can<Bp>>::bin_as_ptr(&bin);
    let can = <Ba as CanSized<Bp>>::from_bin(bin);
    assert_eq!(can.can_as_ptr() as *const (), at);
    assert_eq!(can.clone().can_as_ptr() as *const (), at);
}
''', 'a blueprint packed into the blueprint container', 'the blueprint container tells its own address instead of the one of its content', feats='"unsized"', tool='nightly')

seed('last-strong-arc-handle', 'C14',
     [(CAN, '''	type CanWeak = WeakArc<dyn Any + Send + Sync>;

	fn downgrade(&self) -> Self::CanWeak {
		Arc::downgrade(self)
	}

	fn upgrade_from_weak(weak: &Self::CanWeak) -> Option<Self> {
		weak.upgrade()
	}''', '''	type CanWeak = WeakArc<dyn Any + Send + Sync>;

	fn downgrade(&self) -> Self::CanWeak {
		Arc::downgrade(self)
	}

	fn upgrade_from_weak(weak: &Self::CanWeak) -> Option<Self> {
		// The last strong reference might be dropped concurrently
		match weak.strong_count() {
			0 | 1 => None,
			_ => weak.upgrade(),
		}
	}''')],
     '''
use daab::canning::*;
use std::any::Any;
use std::sync::Arc;
fn main() {
    let c = <Arc<dyn Any + Send + Sync> as CanSized<u32>>::from_inner(7);
    let w = c.downgrade();
    let d = c.clone();
    assert!(CanStrong::upgrade_from_weak(&w).map_or(false, |x: Arc<dyn Any + Send + Sync>| Arc::ptr_eq(&x, &c)));
    drop(d);
    assert!(CanStrong::upgrade_from_weak(&w).map_or(false, |x: Arc<dyn Any + Send + Sync>| Arc::ptr_eq(&x, &c)));
    drop(c);
    assert!(<Arc<dyn Any + Send + Sync>>::upgrade_from_weak(&w).is_none());
}
''', 'exactly one strong handle left when the weak one is upgraded', 'a weak handle gives nothing back though one strong handle exists')

UT = 'src/utils.rs'
seed('kept-artifact-taken', 'C15',
     [(UT, '			Ok(resolver.my_state().clone().unwrap())', '''			let kept = resolver.my_state().take();

			Ok(kept.or_else(|| self.default_value.clone()).unwrap())''')],
     '''
use daab::utils::RedeemingBuilder;
#[derive(Debug)]
struct S;
impl rc::Builder for S {
    type Artifact = u32; type DynState = u32; type Err = ();
    fn build(&self, r: &mut rc::Resolver<u32>) -> Result<Rc<u32>, ()> {
        let s = r.my_state();
        *s += 1;
        if *s == 1 { Ok(Rc::new(7)) } else { Err(()) }
    }
    fn init_dyn_state(&self) -> u32 { 0 }
}
fn main() {
    let s = rc::Blueprint::new(S);
    let r = rc::Blueprint::new(RedeemingBuilder::new(s.clone(), Some(Rc::new(1))));
    let mut c = rc::CacheOwned::new();
    for _ in 0..4 {
        assert!(matches!(c.get_cloned(&r), Ok(7)));
        c.invalidate(&s);
        c.invalidate(&r);
    }
}
''', 'a success of the inner builder and then two failures, each followed by an invalidation of the redeeming builder, with a default configured', 'the second failure yields the default instead of the most recent artifact')

seed('closure-state-lost-on-failure', 'C15',
     [(UT, '''		let state = resolver.my_state();

		f(state)
''', '''		let state = resolver.my_state();
		let before = state.clone();

		f(state).map_err(|err| {
			// A failed run shall have no effect
			*state = before;
			err
		})
''')],
     '''
use daab::utils::FunctionalBuilder;
fn main() {
    let f = rc::Blueprint::new(FunctionalBuilder::<rc::CanType, rc::BuilderCan, _, u32, u32>::with_state(0u32, |s: &mut u32| -> Result<Rc<u32>, u32> {
        *s += 1;
        if *s < 3 { Err(*s) } else { Ok(Rc::new(*s)) }
    }));
    let mut c = rc::CacheOwned::new();
    assert!(c.get_cloned(&f) == Err(1));
    assert!(c.get_cloned(&f) == Err(2));
    assert!(c.get_cloned(&f) == Ok(3));
}
''', 'a closure that changes its state and then fails', 'what the closure wrote to its own state is undone when it fails')

seed('first-artifact-kept', 'C15',
     [(UT, '''			*resolver.my_state() = Some(v.clone());
''', '''			// The last good artifact
			resolver.my_state().get_or_insert_with(|| v.clone());
''')],
     '''
use daab::utils::RedeemingBuilder;
#[derive(Debug)]
struct S;
impl rc::Builder for S {
    type Artifact = u32; type DynState = u32; type Err = ();
    fn build(&self, r: &mut rc::Resolver<u32>) -> Result<Rc<u32>, ()> {
        let s = r.my_state();
        *s += 1;
        if *s < 3 { Ok(Rc::new(*s)) } else { Err(()) }
    }
    fn init_dyn_state(&self) -> u32 { 0 }
}
fn main() {
    let s = rc::Blueprint::new(S);
    let r = rc::Blueprint::new(RedeemingBuilder::new(s.clone(), None));
    let mut c = rc::CacheOwned::new();
    assert!(matches!(c.get_cloned(&r), Ok(1)));
    c.invalidate(&s);
    assert!(matches!(c.get_cloned(&r), Ok(2)));
    c.invalidate(&s);
    assert!(matches!(c.get_cloned(&r), Ok(2)));
}
''', 'two different successes of the inner builder, then a failure', 'the first artifact is kept instead of the most recent one')

VIS = 'src/diagnostics/visgraph.rs'
TXT = 'src/diagnostics/textual.rs'

seed('empty-generation-skipped', 'C17',
     [(TXT, '''			r"Clears generation #{}",
			count.0,
		).unwrap();
		
		// Generations inc
		self.count.0 += 1;
		self.count.1 = 0;
''', '''			r"Clears generation #{}",
			count.0,
		).unwrap();
		
		// Generations inc, unless nothing was built in this one
		if count.1 > 0 {
			self.count.0 += 1;
			self.count.1 = 0;
		}
''')],
     '''
use daab::diagnostics::{Doctor, TextualDoc, TextualDocOptions, ArtifactHandle};
fn main() {
    let mut d = TextualDoc::new(TextualDocOptions::default(), Vec::new());
    for _ in 0..3 { Doctor::<rc::CanType, rc::BuilderCan>::clear(&mut d); }
    let out = String::from_utf8(d.into_inner()).unwrap();
    let l: Vec<&str> = out.lines().collect();
    assert_eq!(l.len(), 3);
    for (i, l) in l.iter().enumerate() { assert!(l.contains(&i.to_string()), "{}", out); }
    let _ = |a: ArtifactHandle<rc::CanType>| a;
}
''', 'a clear when nothing was built since the last clear or invalidation', 'the generation number does not advance', feats='"diagnostics"')

seed('rebuilt-node-reused', 'C17',
     [(VIS, '''	fn invalidate(&mut self, _builder: &BuilderHandle<BCan>) {
		// Generations inc
		self.count.0 += 1;
		self.count.1 = 0;
	}
''', '''	fn invalidate(&mut self, _builder: &BuilderHandle<BCan>) {
		// What is built from now on is counted anew
		self.count.1 = 0;
	}
''')],
     '''
use daab::diagnostics::{Doctor, VisgraphDoc, VisgraphDocOptions, BuilderHandle, ArtifactHandle};
fn main() {
    let (b, _) = node("b", &[]);
    let mut d = VisgraphDoc::new(VisgraphDocOptions::default(), Vec::new());
    let bh: BuilderHandle<rc::BuilderCan> = BuilderHandle::new(&b);
    let ah: ArtifactHandle<rc::CanType> = ArtifactHandle::new(Rc::new(1u32));
    Doctor::build(&mut d, &bh, &ah);
    Doctor::<rc::CanType, rc::BuilderCan>::invalidate(&mut d, &bh);
    Doctor::build(&mut d, &bh, &ah);
    let out = String::from_utf8(d.into_inner()).unwrap();
    // both builds have a node of their own
    let l: Vec<&str> = out.lines().filter(|l| l.contains(" -> ")).map(|l| l.split('[').next().unwrap().trim()).collect();
    assert_eq!(l.len(), 2, "{}", out);
    assert_ne!(l[0], l[1], "{}", out);
}
''', 'an artifact at the same address, or of the same builder, rebuilt with the same sequence number after an invalidation', 'two builds share one node of the graph', feats='"diagnostics"')

seed('graph-without-builds-unclosed', 'C17',
     [(VIS, '''	pub fn into_inner(mut self) -> W {
		self.finish();
		self.output.take().unwrap()
''', '''	pub fn into_inner(mut self) -> W {
		// Nothing to finish if nothing was built
		if self.count != (0, 0) {
			self.finish();
		}
		self.output.take().unwrap()
''')],
     '''
use daab::diagnostics::{Doctor, VisgraphDoc, VisgraphDocOptions, BuilderHandle};
fn main() {
    let ((a, _), (b, _)) = (node("a", &[]), node("b", &[]));
    let mut d = VisgraphDoc::new(VisgraphDocOptions::default(), Vec::new());
    let ah: BuilderHandle<rc::BuilderCan> = BuilderHandle::new(&a);
    let bh: BuilderHandle<rc::BuilderCan> = BuilderHandle::new(&b);
    // the requested builder failed: no build event
    Doctor::<rc::CanType, rc::BuilderCan>::resolve(&mut d, &ah, &bh);
    let out = String::from_utf8(d.into_inner()).unwrap();
    assert!(out.trim_end().ends_with('}'), "{}", out);
}
''', 'a run in which no build succeeds', 'the graph is not closed', feats='"diagnostics"')

seed('fresh-state-lost-on-failure', 'C05',
     [(INT, '''		// Ensure there is a DynState
		self.ensure_dyn_state(promise);

		// Create Resolver prerequisites
		let ent = BuilderEntry::new(promise);''', '''		// Ensure there is a DynState
		let is_fresh = !self.dyn_states.contains_key(&promise.id());
		self.ensure_dyn_state(promise);

		// Create Resolver prerequisites
		let ent = BuilderEntry::new(promise);'''),
      (INT, '''		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''', '''		// Do not keep the state that has been created just for a failed build
		if is_fresh && art_res.is_err() {
			let initial = Box::new(promise.builder().builder.init_dyn_state());
			self.dyn_states.insert(ent.id(), initial);
		}

		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''')],
     '''
fn main() {
    let (a, ia) = node("a", &[]);
    let mut c = rc::CacheOwned::new();
    ia.fail.set(true);
    // each build adds one to the state, failing or not
    assert!(c.get(&a).is_err());
    assert!(c.get(&a).is_err());
    assert_eq!(*c.dyn_state(&a), 102);
    ia.fail.set(false);
    assert_eq!(*c.get(&a).unwrap(), ("a", 3));
    assert_eq!(*c.dyn_state(&a), 103);
}
''', 'the very first build of a builder fails after it modified its state',
     'the state modified by the first build is reset if that build fails')

seed('gc-drops-states-without-artifact', 'C07',
     [(INT, '''		// Only check the leaf builders
		let unreachable_builder_ids''', '''		// Only states of cached artifacts and used builders are of interest
		{
			let artifacts = &self.artifacts;
			let leafs = &self.known_leaf_builder;
			self.dyn_states.retain(|bid, _| artifacts.contains_key(bid) || !leafs.contains(bid));
		}

		// Only check the leaf builders
		let unreachable_builder_ids''')],
     '''
fn main() {
    let (a, ia) = node("a", &[]);
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&a).unwrap(), ("a", 1));
    c.invalidate(&a);
    c.garbage_collection();
    assert_eq!(c.get_dyn_state(&a), Some(&101), "a is still alive");
    ia.fail.set(true);
    assert!(c.get(&a).is_err());
    assert_eq!(c.get_dyn_state(&a), Some(&102));
}
''', 'a live builder without cached artifact and without users at a garbage collection',
     'the garbage collection drops the dynamic state of a live builder that has no artifact at the moment')

seed('state-only-builder-not-collected', 'C08',
     [(INT, '''			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
''', '''			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			// Nothing to drop for those which have not been built
			.filter(|bid| self.artifacts.contains_key(bid) || self.dependencies.contains_key(bid))
''')],
     '''
fn main() {
    let (a, ia) = node("a", &[]);
    let mut c = rc::CacheOwned::new();
    ia.fail.set(true);
    assert!(c.get(&a).is_err());
    assert_eq!(c.number_of_known_builders(), 1);
    drop(a);
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
''', 'an unreachable builder with a dynamic state but neither artifact nor dependencies',
     'unreachable builders that have no artifact and used nothing stay recorded forever')

seed('purge-collects-others', 'C10',
     [(INT, '''		// Invalidate dependents
		self.invalidate_by_id(&promise.id());

		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&BuilderHandle::new(promise));
	}

	/// Deletes all artifacts''', '''		// Invalidate dependents
		self.invalidate_by_id(&promise.id());

		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&BuilderHandle::new(promise));

		// It might have been the only user of some unreachable builders
		self.garbage_collection();
	}

	/// Deletes all artifacts''')],
     '''
fn main() {
    let (a, _) = node("a", &[]);
    let (b, _) = node("b", &[]);
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&a).is_ok());
    assert!(c.get(&b).is_ok());
    assert_eq!(c.number_of_known_builders(), 2);
    drop(b);
    // purging forgets exactly the purged builder
    c.purge(&a);
    assert_eq!(c.number_of_known_builders(), 1);
}
''', 'a purge while some other recorded builder is unreachable',
     'a purge also forgets all unreachable builders')

seed('clear-all-keeps-users', 'C11',
     [(INT, '''		self.artifacts.clear();
		self.dyn_states.clear();
		self.dependents.clear();
		self.dependencies.clear();
		self.known_builders.clear();''', '''		self.artifacts.clear();
		self.dyn_states.clear();
		self.dependents.retain(|_, users| !users.is_empty());
		self.dependencies.clear();
		self.known_builders.clear();''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&a).is_ok());
    c.clear_all();
    // from now on a does not use b any more
    ia.deps.borrow_mut().clear();
    assert_eq!(*c.get(&a).unwrap(), ("a", 2));
    assert_eq!(*c.get(&b).unwrap(), ("b", 2));
    c.invalidate(&b);
    assert_eq!(*c.get(&a).unwrap(), ("a", 2));
}
''', 'a dependency recorded before everything was cleared that does not exist any more afterwards',
     'dependents recorded before clearing everything survive it')

seed('self-request-loses-leaf-mark', 'C09',
     [(INT, '''		// Map dependents (`promise` has new dependent `user`)
		self.dependents.entry(promise.id())
			.or_insert_with(HashSet::new)
			.insert(user.id());

		// Unmark''', '''		// Map dependents (`promise` has new dependent `user`), except for self references
		if promise.id() != user.id() {
			self.dependents.entry(promise.id())
				.or_insert_with(HashSet::new)
				.insert(user.id());
		}

		// Unmark'''),
      (INT, '''		self.dependencies.entry(user.id())
			.or_insert_with(HashSet::new)
			.insert(promise.id());
''', '''		if promise.id() != user.id() {
			self.dependencies.entry(user.id())
				.or_insert_with(HashSet::new)
				.insert(promise.id());
		}
''')],
     '''
/// Requests itself during its first build.
#[derive(Debug)]
struct SelfUser(Rc<(Cell<u32>, RefCell<Option<rc::Blueprint<SelfUser>>>)>);
impl rc::Builder for SelfUser {
    type Artifact = u32;
    type DynState = ();
    type Err = String;
    fn build(&self, r: &mut rc::Resolver<()>) -> Result<Rc<u32>, String> {
        (self.0).0.set((self.0).0.get() + 1);
        let me = (self.0).1.borrow_mut().take();
        if let Some(me) = me {
            r.resolve(&me)?;
        }
        Ok(Rc::new((self.0).0.get()))
    }
    fn init_dyn_state(&self) {}
}
fn main() {
    let inner = Rc::new((Cell::new(0), RefCell::new(None)));
    let b = rc::Blueprint::new(SelfUser(inner.clone()));
    *inner.1.borrow_mut() = Some(b.clone());
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&b).is_ok());
    // b is reachable, and stays, known
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 1);
    c.invalidate(&b);
    drop(b);
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
''', 'a builder that requests itself during its build, followed by a garbage collection',
     'a builder that requested itself is neither a leaf nor has dependents, so the garbage collection panics')

seed('failed-top-user-left', 'C09',
     [(INT, '''				for dep in set {
					pending.push(dep);
				}''', '''				for dep in set {
					// Nothing to invalidate for unused builders without artifact
					if self.artifacts.contains_key(&dep) || self.dependents.contains_key(&dep) {
						pending.push(dep);
					}
				}''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ia.fail.set(true);
    let mut c = rc::CacheOwned::new();
    // fails after it used b
    assert!(c.get(&a).is_err());
    c.invalidate(&b);
    // must not panic
    c.invalidate(&a);
    assert!(c.get(&a).is_err());
}
''', 'a failing builder without users, whose dependency and then itself is invalidated',
     'the dependencies of failed builders survive the invalidation of these dependencies on one side only, so a later invalidation panics')

seed('fresh-state-access-unreported', 'C16',
     [(INT, '''		self.invalidate(promise);

		self.ensure_dyn_state(promise)''', '''		if self.is_builder_known(promise) {
			self.invalidate(promise);
		}

		self.ensure_dyn_state(promise)''')],
     '''
fn main() {
    let (a, _ia) = node("a", &[]);
    let mut c = daab::cache::Cache::new_with_doctor(Rec::default());
    *c.dyn_state_mut(&a) = 5;
    assert_eq!(c.doctor().0, vec![format!("invalidate {:?}", a.id())]);
    assert_eq!(*c.dyn_state(&a), 5);
}
''', 'mutable access to the state of a builder that is not known yet, with a doctor attached',
     'mutable state accesses of unknown builders are not reported', feats='"mut_box", "diagnostics"', pre='node.rs rec.rs')

seed('failure-drops-sole-dependencies', 'C06',
     [(INT, '''		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''', '''		// The artifacts which only the failed builder needs are of no use now
		if art_res.is_err() {
			for dep in self.dependencies.get(&ent.id()).into_iter().flatten() {
				if self.dependents[dep].len() == 1 {
					self.artifacts.remove(dep);
				}
			}
		}

		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&b).unwrap(), ("b", 1));
    ia.fail.set(true);
    assert!(c.get(&a).is_err());
    assert!(c.lookup(&b).is_some());
    assert_eq!(*c.get(&b).unwrap(), ("b", 1));
}
''', 'a build that fails after it used a builder which no other builder uses',
     'a failing build drops the artifacts of builders only it used')

seed('dead-users-forgotten-on-invalidation', 'C03',
     [(INT, '''			self.artifacts.remove(&bid);

		}
''', '''			self.artifacts.remove(&bid);

			// There is no need to keep dependents that can not be requested again
			if bid != *builder && self.known_builders.get(&bid).map_or(false, |weak| BCan::upgrade_from_weak(weak).is_none()) {
				self.dyn_states.remove(&bid);
				self.known_builders.remove(&bid);
				self.known_leaf_builder.remove(&bid);
			}
		}
''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, _) = node("a", &[&b]);
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&a).is_ok());
    drop(a);
    assert_eq!(c.number_of_known_builders(), 2);
    c.invalidate(&b);
    assert_eq!(c.number_of_known_builders(), 2);
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 1);
}
''', 'the invalidation of a builder that was used by a meanwhile unreachable one',
     'an invalidation forgets the records and states of unreachable dependents')

seed('state-access-of-failed-builder', 'C02',
     [(INT, '''		self.invalidate(promise);

		self.ensure_dyn_state(promise)''', '''		if self.contains_artifact(promise) {
			self.invalidate(promise);
		}

		self.ensure_dyn_state(promise)''')],
     '''
fn main() {
    let (b, ib) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ib.fail.set(true);
    ia.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&a).unwrap(), ("a", 1));
    ib.fail.set(false);
    *c.dyn_state_mut(&b) = 7;
    assert_eq!(*c.get(&a).unwrap(), ("a", 2), "a used b");
}
''', 'mutable access to the state of a failed builder, whose failure was tolerated by another one',
     'taking mutable access to the state of a builder without artifact does not invalidate its dependents')

seed('gc-drops-shared-dependencies', 'C07',
     [(INT, '''			self.invalidate_by_id(&bid);
			self.dyn_states.remove(&bid);''', '''			let used = self.dependencies.get(&bid).filter(|deps| deps.len() > 1).cloned();
			self.invalidate_by_id(&bid);
			// Nothing uses the former dependencies any more
			for dep in used.into_iter().flatten() {
				if self.known_leaf_builder.contains(&dep) {
					self.artifacts.remove(&dep);
				}
			}
			self.dyn_states.remove(&bid);''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (x, _) = node("x", &[]);
    let (a, _) = node("a", &[&x, &b]);
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&a).is_ok());
    drop(a);
    c.garbage_collection();
    assert_eq!(*c.get(&b).unwrap(), ("b", 1), "b is still alive");
}
''', 'the collection of an unreachable builder that used two others, one of them live',
     'the garbage collection drops the artifacts of live builders that were used by a collected one')

seed('tolerant-user-always-rebuilt', 'C01',
     [(INT, '''

		if let Some(art) = self.lookup(promise) {
			Ok(art)

		} else {
			self.build(promise)''', '''
		// An artifact is only up to date if the ones it was made of are there
		let complete = self.dependencies.get(&promise.id()).map_or(true,
			|deps| deps.iter().all(|dep| self.artifacts.contains_key(dep)));
		if !complete {
			self.invalidate_by_id(&promise.id());
		}

		if let Some(art) = self.lookup(promise) {
			Ok(art)

		} else {
			self.build(promise)''')],
     '''
fn main() {
    let (b, ib) = node("b", &[]);
    let (a, ia) = node("a", &[&b]);
    ib.fail.set(true);
    ia.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&a).unwrap(), ("a", 1));
    assert_eq!(*c.get(&a).unwrap(), ("a", 1), "a is cached");
}
''', 'a second request for a builder that tolerated a failing dependency', 'its artifact is built again at every request')

seed('ref-of-cached-untracked', 'C04',
     [(CACHE, '''		self.track_dependency(promise);
		self.cache.get_ref(promise)''', '''		if self.cache.lookup_ref(promise).is_none() {
			self.track_dependency(promise);
		}
		self.cache.get_ref(promise)''')],
     '''
#[derive(Debug)]
struct ByRef(Bp);
impl rc::Builder for ByRef {
    type Artifact = u32;
    type DynState = ();
    type Err = String;
    fn build(&self, r: &mut rc::Resolver) -> Result<Rc<u32>, String> {
        Ok(Rc::new(r.resolve_ref(&self.0)?.1))
    }
    fn init_dyn_state(&self) {}
}
fn main() {
    let (b, _ib) = node("b", &[]);
    let a = rc::Blueprint::new(ByRef(b.clone()));
    let mut c = rc::CacheOwned::new();
    c.get(&b).unwrap();
    assert_eq!(*c.get(&a).unwrap(), 1);
    c.invalidate(&b);
    assert_eq!(*c.get(&a).unwrap(), 2, "a was built from b");
}
''', 'resolve_ref of a builder whose artifact is cached already, followed by its invalidation', 'such a user does not become a dependent')

seed('other-users-forgotten', 'C04',
     [(INT, '''						let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf {''', '''						// Without an artifact there is nothing to be used
						if !self.artifacts.contains_key(&dep) {
							let others = self.dependents.insert(dep, HashSet::new());
							for user in others.into_iter().flatten() {
								self.dependencies.get_mut(&user).map(|used| used.remove(&dep));
							}
						}

						let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf {''')],
     '''
fn main() {
    let (b, ib) = node("b", &[]);
    let (x, ix) = node("x", &[&b]);
    let (y, iy) = node("y", &[&b]);
    ib.fail.set(true);
    ix.tolerate.set(true);
    iy.tolerate.set(true);
    let mut c = rc::CacheOwned::new();
    c.get(&x).unwrap();
    c.get(&y).unwrap();
    c.invalidate(&x);
    c.invalidate(&b);
    assert!(c.lookup(&y).is_none(), "y used b");
}
''', 'two tolerant users of a failing builder: one is invalidated, then the failing builder', 'the other user stays cached')

seed('first-failure-rolled-back', 'C10',
     [(INT, '''		// Ensure there is a DynState
		self.ensure_dyn_state(promise);
''', '''		// Ensure there is a DynState
		let first = !self.dyn_states.contains_key(&promise.id());
		self.ensure_dyn_state(promise);
'''), (INT, '''		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''', '''		// Forget a builder that never worked so far, unless something uses it
		let bid = ent.id();
		if art_res.is_err() && first && self.dependents.get(&bid).map_or(true, |users| users.is_empty()) {
			self.invalidate_by_id(&bid);
			self.dyn_states.remove(&bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.remove(&bid);
		}

		// Add artifact to cache if it was successful, otherwise just return
		// the error
		art_res.map(move |art_bin| {''')],
     '''
fn main() {
    let (a, ia) = node("a", &[]);
    ia.fail.set(true);
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&a).is_err());
    assert!(c.is_builder_known(&a));
    assert_eq!(c.number_of_known_builders(), 1);
}
''', 'a first build that fails, of a builder nothing else uses', 'such a builder does not become known')

seed('clear-all-keeps-leafs', 'C11',
     [(INT, '''		self.known_builders.clear();
		self.known_leaf_builder.clear();
''', '''		self.known_builders.clear();
''')],
     '''
fn main() {
    let (a, _ia) = node("a", &[]);
    let mut c = rc::CacheOwned::new();
    c.get(&a).unwrap();
    c.clear_all();
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
''', 'a garbage collection after clearing everything', 'the list of leafs survives, so the garbage collection panics')

seed('tolerant-users-survive-get-mut', 'C12',
     [(INT, '''		self.invalidate_dependents(&id);

		// If an artifact exists''', '''		if self.contains_artifact(promise) {
			self.invalidate_dependents(&id);
		}

		// If an artifact exists''')],
     '''
use std::any::Any;
#[derive(Debug)]
struct Leaf(Rc<Cell<bool>>);
impl boxed::Builder for Leaf {
    type Artifact = u32;
    type DynState = ();
    type Err = ();
    fn build(&self, _: &mut boxed::Resolver) -> Result<Box<u32>, ()> {
        if self.0.get() { Err(()) } else { Ok(Box::new(7)) }
    }
    fn init_dyn_state(&self) {}
}
#[derive(Debug)]
struct Top(boxed::Blueprint<Leaf>);
impl boxed::Builder for Top {
    type Artifact = u32;
    type DynState = ();
    type Err = ();
    fn build(&self, r: &mut boxed::Resolver) -> Result<Box<u32>, ()> {
        Ok(Box::new(r.resolve_cloned(&self.0).unwrap_or(0)))
    }
    fn init_dyn_state(&self) {}
}
fn main() {
    let fail = Rc::new(Cell::new(true));
    let b = boxed::Blueprint::new(Leaf(fail.clone()));
    let a = boxed::Blueprint::new(Top(b.clone()));
    let mut c = boxed::CacheOwned::new();
    assert_eq!(c.get_cloned(&a), Ok(0));
    fail.set(false);
    *c.get_mut(&b).unwrap() = 9;
    assert_eq!(c.get_cloned(&a), Ok(9), "a used b, which was changed since");
}
''', 'get_mut of an absent artifact which a tolerant user requested in vain before', 'the users of the builder keep their artifacts')

seed('clear-artifacts-reported', 'C16',
     [(INT, '''		self.known_leaf_builder.extend(self.known_builders.keys());

	}
''', '''		self.known_leaf_builder.extend(self.known_builders.keys());

		#[cfg(feature = "diagnostics")]
		self.doctor.clear();
	}
''')],
     '''
fn main() {
    let (a, _ia) = node("a", &[]);
    let mut c = daab::cache::Cache::new_with_doctor(Rec::default());
    c.get(&a).unwrap();
    c.clear_artifacts();
    assert_eq!(c.doctor().0, vec![format!("build {:?}", a.id())]);
}
''', 'clearing the artifacts with a doctor attached', 'it is reported like clearing everything',
     feats='"mut_box", "diagnostics"', pre='node.rs rec.rs')

seed('mutable-access-reported', 'C16',
     [(INT, '''		self.invalidate_dependents(&id);

		// If an artifact exists''', '''		self.invalidate_dependents(&id);

		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&BuilderHandle::new(promise));

		// If an artifact exists''')],
     '''
struct Log(Vec<&'static str>);
impl Doctor<Box<dyn Any>, Rc<dyn Any>> for Log {
    fn resolve(&mut self, _: &BuilderHandle<Rc<dyn Any>>, _: &BuilderHandle<Rc<dyn Any>>) { self.0.push("resolve") }
    fn build(&mut self, _: &BuilderHandle<Rc<dyn Any>>, _: &ArtifactHandle<Box<dyn Any>>) { self.0.push("build") }
    fn clear(&mut self) { self.0.push("clear") }
    fn invalidate(&mut self, _: &BuilderHandle<Rc<dyn Any>>) { self.0.push("invalidate") }
}
#[derive(Debug)]
struct Leaf;
impl boxed::Builder for Leaf {
    type Artifact = u32;
    type DynState = ();
    type Err = ();
    fn build(&self, _: &mut boxed::Resolver) -> Result<Box<u32>, ()> { Ok(Box::new(7)) }
    fn init_dyn_state(&self) {}
}
fn main() {
    let a = boxed::Blueprint::new(Leaf);
    let mut c = daab::cache::Cache::new_with_doctor(Log(vec![]));
    *c.get_mut(&a).unwrap() = 8;
    assert_eq!(c.lookup_mut(&a), Some(&mut 8));
    assert_eq!(c.doctor().0, vec!["build"]);
}
''', 'mutable access to an artifact with a doctor attached', 'it is reported as an invalidation of its builder, which it is not',
     feats='"mut_box", "diagnostics"', pre='node.rs rec.rs')

seed('boxed-bin-address', 'C14',
     [('src/canning.rs', '''impl<T: ?Sized + Debug + 'static> Can<T> for Box<dyn Any> {
	type Bin = Box<T>;

	fn bin_as_ptr(b: &Self::Bin) -> *const () {
		b.deref() as *const T as *const ()''', '''impl<T: ?Sized + Debug + 'static> Can<T> for Box<dyn Any> {
	type Bin = Box<T>;

	fn bin_as_ptr(b: &Self::Bin) -> *const () {
		b as *const Self::Bin as *const ()''')],
     '''
use daab::canning::{Can, CanBase, CanSized};
use std::any::Any;
fn main() {
    type C = Box<dyn Any>;
    let bin = <C as CanSized<u32>>::into_bin(5);
    let at = <C as Can<u32>>::bin_as_ptr(&bin);
    let can = <C as CanSized<u32>>::from_bin(bin);
    assert_eq!(at, can.can_as_ptr() as *const ());
}
''', 'the address of a boxed value, before and after it is canned', 'the address told for the boxed value is the one of the box itself')

seed('default-preferred-over-kept', 'C15',
     [(UT, '''			Ok(resolver.my_state().clone().unwrap())''', '''			Ok(self.default_value.clone().or_else(|| resolver.my_state().clone()).unwrap())''')],
     '''
fn main() {
    let (b, ib) = node("b", &[]);
    let a = rc::Blueprint::new(daab::utils::RedeemingBuilder::new(b.clone(), Some(Rc::new(("default", 0)))));
    let mut c = rc::CacheOwned::new();
    assert_eq!(*c.get(&a).unwrap(), ("b", 1));
    ib.fail.set(true);
    c.invalidate(&b);
    assert_eq!(*c.get(&a).unwrap(), ("b", 1));
}
''', 'a redeeming builder with a default value whose inner builder succeeds first and fails later', 'the default is yielded instead of the most recent artifact')

seed('sequence-goes-on-after-invalidation', 'C17',
     [('src/diagnostics/textual.rs', '''				bs,
			).unwrap();
		}
		
		// Generations inc
		self.count.0 += 1;
		self.count.1 = 0;
''', '''				bs,
			).unwrap();
		}
		
		// Generations inc
		self.count.0 += 1;
''')],
     '''
use daab::diagnostics::{TextualDoc, TextualDocOptions};
fn main() {
    let (a, _ia) = node("a", &[]);
    let mut o = TextualDocOptions::default();
    o.show_addresses = false;
    let mut c = daab::cache::Cache::new_with_doctor(TextualDoc::new(o, Vec::new()));
    c.get(&a).unwrap();
    c.invalidate(&a);
    c.get(&a).unwrap();
    let text = String::from_utf8(c.into_doctor().into_inner()).unwrap();
    assert!(text.contains("built #1.0 "), "{}", text);
}
''', 'a build after an invalidation, with the textual doctor attached', 'the sequence numbers go on counting in the new generation',
     feats='"mut_box", "diagnostics"', pre='node.rs rec.rs')

seed('id-compares-some-bits', 'C13',
     [('src/lib.rs', '''#[derive(Clone, Debug, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct BuilderId(usize);
''', '''#[derive(Clone, Debug, Copy, Hash, Eq, PartialOrd, Ord)]
pub struct BuilderId(usize);

impl PartialEq for BuilderId {
	fn eq(&self, other: &Self) -> bool {
		// The upper bits are the same for the whole heap
		(self.0 ^ other.0) & 0xffff == 0
	}
}
''')],
     '''
#[derive(Debug)]
struct Val(u32);
impl rc::SimpleBuilder for Val {
    type Artifact = u8;
    fn build(&self, _: &mut rc::Resolver) -> u8 { 1 }
}
fn main() {
    let bps: Vec<rc::Blueprint<Val>> = (0..4000).map(|i| rc::Blueprint::new(Val(i))).collect();

    for (i, a) in bps.iter().enumerate() {
        assert!(*a == a.clone());
        for b in &bps[..i] {
            assert!(a != b, "separately created");
        }
    }
}
''', 'two blueprints whose allocations are a multiple of 64 KiB apart', 'such blueprints compare equal')

seed('leaf-only-in-debug-build', 'C08',
     [(INT, '''						let found = self.dependents.get_mut(&dep)
								.expect("Mapped dependency has no dependents counterpart map.")
								.remove(&bid);

						// Notice the above code has important side-effects, thus
						// only the return value is tested in the assert macro.
						debug_assert!(found);

''', '''						debug_assert!(
							self.dependents.get_mut(&dep)
									.expect("Mapped dependency has no dependents counterpart map.")
									.remove(&bid)
						);

''')],
     '''
fn main() {
    let (b, _) = node("b", &[]);
    let (a, _) = node("a", &[&b]);
    let mut c = rc::CacheOwned::new();
    assert!(c.get(&a).is_ok());
    c.invalidate(&a);
    drop(a);
    // the node also holds its dependencies
    drop(b);
    c.garbage_collection();
    assert_eq!(c.number_of_known_builders(), 0);
}
''', 'a build without debug assertions, and a user that is invalidated before it and the builder it used are dropped',
     'the user is taken off the dependents inside a debug assertion: without debug assertions the builder it used never becomes a leaf again and is never collected', release=True)
