"""Edits that keep the behaviour: the checks have to stay quiet on all of them.
name -> list of (file, kind, where, text):
  body: replaces the body of the n-th fn whose header contains `where`
  sub:  replaces the only occurrence of `where`
  after / before: inserts an item after / before the fn whose header contains `where`
"""
from refactors_common import I, C, K, B, U, L, DM, DT, DV

R = {}

# ------------------------------------------------ internal.rs
R['inv-detach-helper'] = [
    (I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		processed.insert(*builder);
		let mut pending = Vec::new();
		pending.push(*builder);
		while let Some(bid) = pending.pop() {
			processed.insert(bid);
			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set {
					if !processed.contains(&dep) {
						self.detach(&bid, dep);
					}
				}
			}
			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
			self.artifacts.remove(&bid);
		}
	'''),
    (I, 'before', 'fn invalidate_by_id(', '''
	/// removes one edge
	fn detach(&mut self, user: &BuilderId, dep: BuilderId) {
		let found = self.dependents.get_mut(&dep)
			.expect("Mapped dependency has no dependents counterpart map.")
			.remove(user);
		debug_assert!(found);
		let is_leaf = self.dependents[&dep].is_empty();
		if is_leaf {
			self.known_leaf_builder.insert(dep);
		}
	}
''')]
R['inv-extend'] = [(I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		let mut pending = vec![*builder];
		processed.insert(*builder);
		while let Some(bid) = pending.pop() {
			processed.insert(bid);
			self.artifacts.remove(&bid);
			if let Some(set) = self.dependents.remove(&bid) {
				pending.extend(set);
			}
			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set {
					if processed.contains(&dep) {
						continue;
					}
					let dependents = self.dependents.get_mut(&dep)
						.expect("Mapped dependency has no dependents counterpart map.");
					let found = dependents.remove(&bid);
					debug_assert!(found);
					if dependents.is_empty() {
						self.known_leaf_builder.insert(dep);
					}
				}
			}
			if self.known_builders.contains_key(&bid) {
				self.known_leaf_builder.insert(bid);
			}
		}
	''')]
R['inv-loop-match'] = [(I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		processed.insert(*builder);
		let mut pending = Vec::new();
		pending.push(*builder);
		loop {
			let bid = match pending.pop() {
				Some(bid) => bid,
				None => break,
			};
			processed.insert(bid);
			match self.dependents.remove(&bid) {
				Some(users) => {
					for user in users.into_iter() {
						pending.push(user);
					}
				}
				None => {}
			}
			match self.dependencies.remove(&bid) {
				Some(set) => {
					for dep in set.iter() {
						if !processed.contains(dep) {
							let found = self.dependents.get_mut(dep)
								.expect("Mapped dependency has no dependents counterpart map.")
								.remove(&bid);
							debug_assert!(found);
							let is_leaf = self.dependents[dep].is_empty();
							if is_leaf {
								self.known_leaf_builder.insert(*dep);
							}
						}
					}
				}
				None => {}
			}
			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
			self.artifacts.remove(&bid);
		}
	''')]
R['inv-filter'] = [(I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		processed.insert(*builder);
		let mut pending = Vec::new();
		pending.push(*builder);
		while !pending.is_empty() {
			let bid = pending.pop().unwrap();
			processed.insert(bid);
			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set.into_iter().filter(|d| !processed.contains(d)) {
					let found = self.dependents.get_mut(&dep)
							.expect("Mapped dependency has no dependents counterpart map.")
							.remove(&bid);
					debug_assert!(found);
					if self.dependents[&dep].is_empty() {
						self.known_leaf_builder.insert(dep);
					}
				}
			}
			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
			self.artifacts.remove(&bid);
		}
	''')]
R['inv-recursive'] = [
    (I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		processed.insert(*builder);
		self.invalidate_step(*builder, &mut processed);
	'''),
    (I, 'before', 'fn invalidate_by_id(', '''
	fn invalidate_step(&mut self, bid: BuilderId, processed: &mut HashSet<BuilderId>) {
		processed.insert(bid);
		let users = self.dependents.remove(&bid);
		if let Some(set) = self.dependencies.remove(&bid) {
			for dep in set {
				if !processed.contains(&dep) {
					let found = self.dependents.get_mut(&dep)
							.expect("Mapped dependency has no dependents counterpart map.")
							.remove(&bid);
					debug_assert!(found);
					if self.dependents[&dep].is_empty() {
						self.known_leaf_builder.insert(dep);
					}
				}
			}
		}
		if self.is_builder_known_by_id(bid) {
			self.known_leaf_builder.insert(bid);
		}
		self.artifacts.remove(&bid);
		if let Some(set) = users {
			for dep in set {
				self.invalidate_step(dep, processed);
			}
		}
	}
''')]
R['invdep-early-return'] = [(I, 'body', 'fn invalidate_dependents(', '''
		let users: Vec<BuilderId> = match self.dependents.get(builder) {
			Some(set) => set.iter().copied().collect(),
			None => Vec::new(),
		};
		for user in users {
			self.invalidate_by_id(&user);
		}
		let known = self.known_builders.contains_key(builder);
		if known {
			self.known_leaf_builder.insert(*builder);
		}
	''')]
R['invdep-iter'] = [(I, 'body', 'fn invalidate_dependents(', '''
		let set = self.dependents.get(builder).cloned().unwrap_or_default();
		for dep in set.iter() {
			self.invalidate_by_id(dep);
		}
		if !self.is_builder_known_by_id(*builder) {
			return;
		}
		self.known_leaf_builder.insert(*builder);
	''')]
R['gc-loop'] = [(I, 'body', 'fn garbage_collection(', '''
		loop {
			if !self.collect_unreachable_leafs() {
				break;
			}
		}
	''')]
R['gc-flag'] = [(I, 'body', 'fn garbage_collection(', '''
		let mut again = true;
		while again {
			again = self.collect_unreachable_leafs();
		}
	''')]
R['leafs-for'] = [(I, 'body', 'fn collect_unreachable_leafs(', '''
		let mut unreachable = Vec::new();
		for bid in self.known_leaf_builder.iter() {
			let alive = BCan::upgrade_from_weak(&self.known_builders[bid]).is_some();
			if !alive {
				unreachable.push(*bid);
			}
		}
		let found_any = !unreachable.is_empty();
		for bid in &unreachable {
			self.invalidate_by_id(bid);
			self.dyn_states.remove(bid);
			self.known_builders.remove(bid);
			self.known_leaf_builder.remove(bid);
		}
		found_any
	''')]
R['leafs-helper'] = [(I, 'body', 'fn collect_unreachable_leafs(', '''
		let unreachable_builder_ids = self.unreachable_leafs();
		let found_any = !unreachable_builder_ids.is_empty();
		for bid in unreachable_builder_ids {
			self.forget(bid);
		}
		found_any
	'''), (I, 'before', 'fn collect_unreachable_leafs(', '''
	fn unreachable_leafs(&self) -> Vec<BuilderId> {
		self.known_leaf_builder.iter()
			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.copied()
			.collect()
	}

	fn forget(&mut self, bid: BuilderId) {
		self.invalidate_by_id(&bid);
		self.known_leaf_builder.remove(&bid);
		self.known_builders.remove(&bid);
		self.dyn_states.remove(&bid);
	}
''')]
R['leafs-early'] = [(I, 'body', 'fn collect_unreachable_leafs(', '''
		let unreachable_builder_ids: Vec<BuilderId> = self.known_leaf_builder.iter()
			.copied()
			.filter(|bid| BCan::upgrade_from_weak(self.known_builders.get(bid).unwrap()).is_none())
			.collect();
		if unreachable_builder_ids.is_empty() {
			return false;
		}
		for bid in unreachable_builder_ids.iter() {
			self.invalidate_by_id(bid);
			self.dyn_states.remove(bid);
			self.known_builders.remove(bid);
			self.known_leaf_builder.remove(bid);
		}
		true
	''')]
R['known-entry-match'] = [(I, 'body', 'fn make_builder_known<', '''
		let bid = promise.id();
		if !self.known_builders.contains_key(&bid) {
			self.known_leaf_builder.insert(bid);
			self.known_builders.insert(bid, promise.canned().can.downgrade());
		}
	''')]
R['known-early'] = [(I, 'body', 'fn make_builder_known<', '''
		let bid = promise.id();
		if self.is_builder_known_by_id(bid) {
			return;
		}
		let weak = promise.canned().can.downgrade();
		self.known_builders.insert(bid, weak);
		self.known_leaf_builder.insert(bid);
	''')]
R['purge-order'] = [(I, 'sub', '''		let bid = promise.id();

		// Remove weak ref''', '''		let bid = promise.id();

		// Remove weak ref''')]
R['purge-order'] = [(I, 'body', 'fn purge<', '''
		let bid = promise.id();
		self.dyn_states.remove(&bid);
		self.artifacts.remove(&bid);
		self.known_leaf_builder.remove(&bid);
		self.known_builders.remove(&bid);
		self.invalidate_by_id(&bid);
		#[cfg(feature = "diagnostics")]
		{
			let handle = BuilderHandle::new(promise);
			self.doctor.invalidate(&handle);
		}
	''')]
R['track-locals'] = [(I, 'body', 'fn track_dependency<', '''
		self.make_builder_known(promise);
		let used = promise.id();
		let using = user.id();
		debug_assert!(self.is_builder_known_by_id(using),
			"Tracking dependency for unknown builder");
		self.known_leaf_builder.remove(&used);
		self.dependencies.entry(using)
			.or_insert_with(HashSet::new)
			.insert(used);
		self.dependents.entry(used)
			.or_insert_with(HashSet::new)
			.insert(using);
		#[cfg(feature = "diagnostics")]
		self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));
	''')]
R['track-default'] = [(I, 'body', 'fn track_dependency<', '''
		self.make_builder_known(promise);
		self.add_edge(user.id(), promise.id());
		#[cfg(feature = "diagnostics")]
		{
			let used = BuilderHandle::new(promise);
			self.doctor.resolve(diag_builder, &used);
		}
	'''), (I, 'before', 'fn make_builder_known<', '''
	fn add_edge(&mut self, user: BuilderId, used: BuilderId) {
		debug_assert!(self.is_builder_known_by_id(user),
			"Tracking dependency for unknown builder");
		self.dependents.entry(used).or_default().insert(user);
		self.known_leaf_builder.remove(&used);
		self.dependencies.entry(user).or_default().insert(used);
	}
''')]
R['lookup-match'] = [(I, 'body', 'fn lookup<', '''
		match self.artifacts.get(&promise.id()) {
			Some(ent) => {
				debug_assert!(self.is_builder_known(promise),
					"Found artifact, but the builder is not known.");
				let can: ArtCan = ent.clone();
				let bin = can.downcast_can();
				Some(bin.expect("Cached artifact is of invalid type"))
			}
			None => None,
		}
	'''), (I, 'body', 'fn lookup_ref<', '''
		let ent = self.artifacts.get(&promise.id())?;
		debug_assert!(self.is_builder_known(promise),
			"Found artifact, but the builder is not known.");
		Some(ent.downcast_can_ref().expect("Cached artifact is of invalid type"))
	'''), (I, 'body', 'fn lookup_mut<', '''
		let id = promise.id();
		self.invalidate_dependents(&id);
		if let Some(ent) = self.artifacts.get_mut(&id) {
			let art = ent.downcast_can_mut()
				.expect("Cached artifact is of invalid type");
			Some(art)
		} else {
			None
		}
	'''), (I, 'body', 'fn lookup_cloned<', '''
		self.lookup_ref(promise).map(|art| art.clone())
	''')]
R['get-match'] = [(I, 'body', 'fn get<', '''
		match self.lookup(promise) {
			Some(art) => Ok(art),
			None => {
				let can = self.build(promise)?;
				Ok(can.clone().downcast_can().expect("Just build artifact is of invalid type"))
			}
		}
	'''), (I, 'body', 'fn get_ref<', '''
		if !self.contains_artifact(promise) {
			self.build(promise)?;
		}
		Ok(self.lookup_ref(promise).unwrap())
	'''), (I, 'body', 'fn get_mut<', '''
		let present = self.lookup_mut(promise).is_some();
		if present {
			return Ok(self.lookup_mut(promise).unwrap());
		}
		let art = self.build(promise)?;
		Ok(art.downcast_can_mut().expect("Just build artifact is of invalid type"))
	'''), (I, 'body', 'fn get_cloned<', '''
		let art = self.get_ref(promise)?;
		Ok(art.clone())
	''')]
R['build-question'] = [(I, 'body', 'fn build<', '''
		debug_assert!(!self.contains_artifact(promise));
		self.make_builder_known(promise);
		self.ensure_dyn_state(promise);
		let ent = BuilderEntry::new(promise);
		#[cfg(feature = "diagnostics")]
		let diag_builder = BuilderHandle::new(promise);
		let mut resolver = Resolver {
			user: &ent,
			cache: self,
			#[cfg(feature = "diagnostics")]
			diag_builder: &diag_builder,
			_b: PhantomData,
		};
		let art_bin = promise.builder().builder.build(&mut resolver)?;
		cfg_if!(
			if #[cfg(feature = "diagnostics")] {
				let handle = ArtifactHandle::new(art_bin);
				self.doctor.build(&diag_builder, &handle);
				let art_can = handle.into_inner();
			} else {
				let art_can = ArtCan::from_bin(art_bin);
			}
		);
		let id = promise.id();
		self.artifacts.insert(id, art_can);
		Ok(self.artifacts.get_mut(&id).unwrap())
	''')]
R['build-store-helper'] = [(I, 'body', 'fn build<', '''
		debug_assert!(!self.contains_artifact(promise));
		self.make_builder_known(promise);
		self.ensure_dyn_state(promise);
		let ent = BuilderEntry::new(promise);
		#[cfg(feature = "diagnostics")]
		let diag_builder = BuilderHandle::new(promise);
		let mut resolver = Resolver {
			user: &ent,
			cache: self,
			#[cfg(feature = "diagnostics")]
			diag_builder: &diag_builder,
			_b: PhantomData,
		};
		let result = promise.builder().builder.build(&mut resolver);
		match result {
			Ok(art_bin) => {
				#[cfg(feature = "diagnostics")]
				let art_can = {
					let handle = ArtifactHandle::new(art_bin);
					self.doctor.build(&diag_builder, &handle);
					handle.into_inner()
				};
				#[cfg(not(feature = "diagnostics"))]
				let art_can = ArtCan::from_bin(art_bin);
				Ok(self.store(promise.id(), art_can))
			}
			Err(e) => Err(e),
		}
	'''), (I, 'before', 'fn make_builder_known<', '''
	fn store(&mut self, id: BuilderId, can: ArtCan) -> &mut ArtCan {
		self.artifacts.insert(id, can);
		self.artifacts.get_mut(&id).unwrap()
	}
''')]
R['dyn-match'] = [(I, 'body', 'fn ensure_dyn_state<', '''
		self.make_builder_known(promise);
		let id = promise.id();
		if !self.dyn_states.contains_key(&id) {
			let state = promise.builder().builder.init_dyn_state();
			self.dyn_states.insert(id, Box::new(state));
		}
		self.dyn_states.get_mut(&id).unwrap()
			.downcast_mut()
			.expect("Cached dyn state is of invalid type")
	'''), (I, 'body', 'fn dyn_state_cast_mut<', '''
		match self.dyn_states.get_mut(&bid) {
			Some(b) => Some(b.downcast_mut().expect("Cached dyn state is of invalid type")),
			None => None,
		}
	'''), (I, 'body', 'fn dyn_state_cast_ref<', '''
		let b = self.dyn_states.get(&bid)?;
		debug_assert!(self.is_builder_known_by_id(bid),
			"Found dyn state, but the builder is not known.");
		Some(b.downcast_ref().expect("Cached dyn state is of invalid type"))
	''')]
R['dyn-cast-via-mut'] = [(I, 'body', 'fn ensure_dyn_state<', '''
		let id = promise.id();
		self.make_builder_known(promise);
		self.dyn_states.entry(id).or_insert_with(
			|| Box::new(promise.builder().builder.init_dyn_state()));
		self.dyn_state_cast_mut(id).unwrap()
	''')]
R['clear-order'] = [(I, 'body', 'fn clear_artifacts(', '''
		for bid in self.known_builders.keys() {
			self.known_leaf_builder.insert(*bid);
		}
		self.dependencies.clear();
		self.dependents.clear();
		self.artifacts.clear();
	'''), (I, 'body', 'fn clear_all(', '''
		self.known_leaf_builder.clear();
		self.known_builders.clear();
		self.dyn_states.clear();
		self.clear_artifacts();
		#[cfg(feature = "diagnostics")]
		self.doctor.clear();
	''')]
R['clear-new'] = [(I, 'body', 'fn clear_artifacts(', '''
		self.artifacts = HashMap::new();
		self.dependents = HashMap::new();
		self.dependencies = HashMap::new();
		self.known_leaf_builder = self.known_builders.keys().copied().collect();
	''')]
R['rename-fields'] = [(I, 'all', 'known_leaf_builder', 'leafs_known'), (I, 'all', 'dyn_states', 'states')]
R['rename-helper'] = [(I, 'all', 'is_builder_known_by_id', 'knows_id'), (I, 'all', 'invalidate_by_id', 'drop_by_id')]
R['eq-operator'] = [(I, 'body', 'fn eq(&self, other: &Self)', '''
		self.id() == other.id()
	'''), (I, 'body', 'fn new<AP>(ap: &AP) -> Self', '''
		let builder = ap.canned().can;
		BuilderEntry { builder }
	'''), (I, 'body', 'fn id(&self) -> BuilderId', '''
		let ptr = self.builder.can_as_ptr();
		BuilderId::new(ptr)
	''')]
R['gc-retain'] = [(I, 'body', 'fn clear_artifacts(', '''
		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();
		let leafs = &mut self.known_leaf_builder;
		self.known_builders.keys().for_each(|bid| { leafs.insert(*bid); });
	''')]

# ------------------------------------------------ cache.rs
R['cache-resolve-let'] = [(C, 'body', 'fn resolve<', '''
		self.track_dependency(promise);
		let cache = &mut self.cache;
		cache.get(promise)
	'''), (C, 'body', 'fn resolve_cloned<', '''
		let art = self.resolve_ref(promise)?;
		Ok(art.clone())
	'''), (C, 'body', 'fn my_state(', '''
		let id = self.user.id();
		self.cache.dyn_state_cast_mut(id).expect("no dyn state")
	'''), (C, 'body', 'fn lookup_cloned<', '''
		self.inner.lookup_ref(promise).cloned()
	'''), (C, 'body', 'fn get_cloned<', '''
		self.get_ref(promise).map(Clone::clone)
	''')]
R['cache-rename-inner'] = [(C, 'all', 'inner:', 'raw:'), (C, 'all', 'self.inner', 'self.raw')]

# ------------------------------------------------ canning.rs
R['can-asref'] = [(K, 'allregex', r'fn can_as_ptr\(&self\) -> \*const dyn Any \{\n\t\tself.deref\(\)', 'fn can_as_ptr(&self) -> *const dyn Any {\n\t\t&**self'),
                  (K, 'all', 'b.deref() as *const T as *const ()', '&**b as *const T as *const ()')]
R['can-asref2'] = [(K, 'all', 'b.deref() as *const T as *const ()', '{ let p: *const T = b.as_ref(); p as *const () }')]
R['can-downcast'] = [(K, 'all', 'self.downcast().ok()', 'match self.downcast() {\n\t\t\tOk(bin) => Some(bin),\n\t\t\tErr(_) => None,\n\t\t}')]
R['can-downcast2'] = [(K, 'all', 'self.downcast().ok()', 'if let Ok(bin) = self.downcast() { Some(bin) } else { None }')]
R['can-upgrade'] = [(K, 'sub0', '		weak.upgrade()', '		WeakRc::upgrade(weak)')]
R['can-ref-is'] = [(K, 'all', 'self.downcast_ref()', 'self.deref().downcast_ref::<T>()')]
R['can-ref-local'] = [(K, 'all', 'self.downcast_ref()', '{ let any: &dyn Any = &**self; any.downcast_ref::<T>() }'.replace('dyn Any =', '_ ='))]
R['can-unsized'] = [(K, 'sub', '''		let rc = builder;

''', '')] if False else [(K, 'body', 'fn can_unsized(builder: Rc<B>)', '''
		let any: Rc<dyn Any> = builder.clone();
		let dynamic: Rc<dyn Builder<ArtCan, Self, Artifact=Artifact, DynState=DynState, Err=Err>> = builder;
		(dynamic, any)
	''')]
R['can-ba-match'] = [(K, 'allregex', r'self\.0\.downcast_can\(\)\.map\( \|bin\| \{\n\t+Bp::new_binned\(bin\)\n\t+\}\)', 'match self.0.downcast_can() {\n\t\t\t\t\tSome(bin) => Some(Bp::new_binned(bin)),\n\t\t\t\t\tNone => None,\n\t\t\t\t}'),
                     (K, 'allregex', r'BuilderArtifact\(b\.canned\(\)\.can\)', '{ let acc = b.canned(); BuilderArtifact(acc.can) }')]

# ------------------------------------------------ blueprint.rs
R['bp-eq'] = [(B, 'all', 'self.id().eq(&other.id())', 'self.id() == other.id()')]
R['bp-ptr'] = [(B, 'all', 'BuilderId::new(BCan::can_as_ptr(&self.builder_canned))', 'BuilderId::new(self.builder_canned.can_as_ptr())')]
R['bp-new'] = [(B, 'body', 'pub fn new(builder: B) -> Self {', '''
		Self::new_binned(BCan::into_bin(builder))
	'''),
               (B, 'body', 'fn new_binned(', '''
		Self { builder: builder_bin }
	''')]
R['bp-id-of'] = [(L, 'body', 'fn new(ptr: *const dyn Any) -> Self', '''
		let thin = ptr as *const ();
		let addr = thin as usize;
		Self(addr)
	''')]
R['bp-dyn-frombp'] = [(B, 'body', 'fn from_bp<B>', '''
		let (builder, builder_canned) = BCan::can_unsized(blueprint.builder);
		Self { builder, builder_canned }
	'''), (B, 'body', 'fn from_sized_bp<B>', '''
				let parts = BCan::can_unsized(blueprint.builder);
				BlueprintUnsized {
					builder_canned: parts.1,
					builder: parts.0,
				}
			''')]

# ------------------------------------------------ utils.rs
R['ut-feign'] = [(U, 'sub', 'resolver.resolve(&self.inner).map_err(|n| n.into_any())', '''match resolver.resolve(&self.inner) {
			Ok(bin) => Ok(bin),
			Err(n) => n.into_any(),
		}''')]
R['ut-cloned'] = [(U, 'sub', '''		resolver.resolve_cloned(&self.inner)
			.map(ArtCan::into_bin)''', '''		let value = resolver.resolve_cloned(&self.inner)?;
		Ok(ArtCan::into_bin(value))''')]
R['ut-cloned2'] = [(U, 'sub', '''		resolver.resolve_cloned(&self.inner)
			.map(ArtCan::into_bin)''', '''		resolver.resolve_ref(&self.inner)
			.map(|art| ArtCan::into_bin(art.clone()))''')]
R['ut-conf'] = [(U, 'sub', 'Ok(ArtCan::into_bin(resolver.my_state().clone()))', '''let value: T = resolver.my_state().clone();
		let bin = ArtCan::into_bin(value);
		Ok(bin)''')]
R['ut-const'] = [(U, 'sub', 'Ok(self.inner.clone())', 'let bin = self.inner.clone();\n\t\tOk(bin)')]

# ------------------------------------------------ diagnostics
R['dm-handle'] = [(DM, 'body', 'fn new<AP>(value: &AP) -> Self', '''
		BuilderHandle {
			id: value.id(),
			dbg_text: format!("{:#?}", &value.builder().builder),
			type_name: std::any::type_name::<AP::Builder>(),
			value: value.canned().can,
		}
	'''), (DM, 'all', 'self.id.eq(&other.id)', 'self.id == other.id')]
R['dm-art'] = [(DM, 'body', 'fn new<T: Any + Debug>', '''
		let text = format!("{:#?}", value);
		let value = ArtCan::from_bin(value);
		ArtifactHandle {
			value,
			type_name: std::any::type_name::<T>(),
			dbg_text: text,
		}
	''')]
R['dt-bump'] = [(DT, 'all', '''		self.count.0 += 1;
		self.count.1 = 0;''', '''		self.next_generation();'''), (DT, 'before', 'fn output(&mut self)', '''
	fn next_generation(&mut self) {
		self.count = (self.count.0 + 1, 0);
	}
''')]
R['dt-resolve-format'] = [(DT, 'body', 'fn resolve(', '''
		let mut line = String::new();
		if self.opts.show_addresses {
			line = format!("resolves [{:p}] {} -> [{:p}] {}", builder.id(), self.builder_str(builder), used.id(), self.builder_str(used));
		} else {
			line = format!("resolves {} -> {}", self.builder_str(builder), self.builder_str(used));
		}
		writeln!(self.output(), "{}", line).unwrap();
	''')]
R['dt-name'] = [(DT, 'body', 'fn resolve(', '''
		let from = self.name(builder);
		let to = self.name(used);
		writeln!(self.output, "resolves {} -> {}", from, to).unwrap();
	'''), (DT, 'before', 'fn output(&mut self)', '''
	fn name<BCan>(&self, builder: &BuilderHandle<BCan>) -> String {
		let text = self.builder_str(builder);
		if self.opts.show_addresses {
			format!("[{:p}] {}", builder.id(), text)
		} else {
			text
		}
	}
'''), (DT, 'body', 'fn invalidate(', '''
		let target = self.name(builder);
		writeln!(self.output, "Invalidates generation #{} targeting {}", self.count.0, target).unwrap();
		self.count.0 += 1;
		self.count.1 = 0;
	''')]
R['dt-clear-inline'] = [(DT, 'body', 'fn clear(', '''
		let (generation, _) = self.count;
		write!(self.output, "Clears generation #{}\\n", generation).unwrap();
		self.count = (generation + 1, 0);
	''')]
R['dt-build'] = [(DT, 'body', 'fn build(', '''
		let (generation, build) = self.count;
		let bs = self.builder_str(builder);
		let art = if self.opts.show_artifact_values {
			artifact.dbg_text.clone()
		} else {
			self.tynm(artifact.type_name)
		};
		if self.opts.show_addresses {
			writeln!(self.output(),
				"built #{}.{} [{:p}] {} => [{:p}] {}",
				generation, build, builder.id(), bs,
				artifact.value.can_as_ptr() as *const (),
				art,
			).unwrap();
		} else {
			writeln!(self.output(), "built #{}.{}  {} => {}", generation, build, bs, art).unwrap();
		}
		self.output().flush().unwrap();
		self.count.1 += 1;
	''')]
R['dv-node-helper'] = [(DV, 'body', 'fn resolve(', '''
		self.node(builder);
		self.node(used);
		writeln!(self.output(),
			r#"  "{:p}" -> "{:p}""#,
			builder.id(),
			used.id()
		).unwrap();
		self.output().flush().unwrap();
	'''), (DV, 'before', 'fn output(&mut self)', '''
	fn node<BCan>(&mut self, builder: &BuilderHandle<BCan>) {
		let s = self.builder_str(builder);
		writeln!(self.output(), r#"  "{:p}" [label = {:?}]"#, builder.id(), s).unwrap();
	}
''')]
R['dv-drop'] = [(DV, 'body', 'fn drop(&mut self)', '''
		if let Some(output) = self.output.as_mut() {
			writeln!(output, "}}").unwrap();
		}
	''')]
R['dv-drop2'] = [(DV, 'body', 'fn into_inner(mut self)', '''
		self.finish();
		let output = self.output.take();
		output.expect("already taken")
	'''), (DV, 'body', 'fn finish(', '''
		let out = self.output();
		writeln!(out, "}}").unwrap();
	''')]
R['dv-bump'] = [(DV, 'all', '''		self.count.0 += 1;
		self.count.1 = 0;''', '''		let (generation, _) = self.count;
		self.count = (generation + 1, 0);''')]
R['dv-escape'] = [(DV, 'body', 'fn escape(', '''
	let text = text.replace('\\\\', "\\\\\\\\");
	text.replace('"', "\\\\\\"")
''')]
R['dv-escape-loop'] = [(DV, 'body', 'fn escape(', '''
	let mut out = String::new();
	for c in text.chars() {
		if c == '\\\\' || c == '"' {
			out.push('\\\\');
		}
		out.push(c);
	}
	out
''')]
R['dv-build-node'] = [(DV, 'sub', '''		let s = if self.opts.show_artifact_values {
			format!(" :\\n{}", artifact.dbg_text)
		} else {
			String::new()
		};''', '''		let mut s = String::new();
		if self.opts.show_artifact_values {
			s = format!(" :\\n{}", artifact.dbg_text);
		}''')]

from refactors2 import R as _R2
R.update(_R2)
from refactors3 import R as _R3
R.update(_R3)
from refactors4 import R as _R4
R.update(_R4)
from refactors5 import R as _R5
R.update(_R5)
