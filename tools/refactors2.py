"""Second batch, see refactors.py."""
from refactors_common import I, C, K, B, U, L, DM, DT, DV

R = {}

R['lookup-q'] = [(I, 'body', 'fn lookup<', '''
		let ent = self.artifacts.get(&promise.id())?;
		debug_assert!(self.is_builder_known(promise));
		let bin = ent.clone().downcast_can().expect("Cached artifact is of invalid type");
		Some(bin)
	'''), (I, 'body', 'fn lookup_ref<', '''
		let id = promise.id();
		let ent = self.artifacts.get(&id)?;
		Some(ent.downcast_can_ref().expect("Cached artifact is of invalid type"))
	'''), (I, 'body', 'fn lookup_mut<', '''
		let id = promise.id();
		self.invalidate_dependents(&id);
		let ent = self.artifacts.get_mut(&id)?;
		Some(ent.downcast_can_mut().expect("Cached artifact is of invalid type"))
	'''), (I, 'body', 'fn lookup_cloned<', '''
		let art = self.lookup_ref(promise)?;
		Some(art.clone())
	''')]
R['lookup-cloned-map'] = [(I, 'body', 'fn lookup_cloned<', '''
		self.lookup_ref(promise).map(|a| a.clone())
	'''), (I, 'body', 'fn get_cloned<', '''
		let art = self.get_ref(promise)?;
		Ok(art.clone())
	''')]
R['get-cloned2'] = [(I, 'body', 'fn get_cloned<', '''
		self.get_ref(promise).map(Clone::clone)
	'''), ]
R['get-cloned3'] = [(I, 'body', 'fn get_cloned<', '''
		self.get_ref(promise).cloned()
	'''), ]
R['get-early'] = [(I, 'body', 'fn get<', '''
		if let Some(art) = self.lookup(promise) {
			return Ok(art);
		}
		let can = self.build(promise)?;
		Ok(can.clone().downcast_can().expect("Just build artifact is of invalid type"))
	'''), (I, 'body', 'fn get_ref<', '''
		if !self.contains_artifact(promise) {
			self.build(promise)?;
		}
		Ok(self.lookup_ref(promise).expect("just built"))
	'''), (I, 'body', 'fn get_mut<', '''
		if self.lookup_mut(promise).is_some() {
			return Ok(self.lookup_mut(promise).unwrap());
		}
		let can = self.build(promise)?;
		Ok(can.downcast_can_mut().expect("Just build artifact is of invalid type"))
	''')]
R['get-mut-contains'] = [(I, 'body', 'fn get_mut<', '''
		let id = promise.id();
		self.invalidate_dependents(&id);
		if self.contains_artifact(promise) {
			return Ok(self.artifacts.get_mut(&id).unwrap().downcast_can_mut().expect("wrong"));
		}
		self.build(promise).map(|art| {
			art.downcast_can_mut()
			.expect("Just build artifact is of invalid type")
		})
	''')]
R['get-ensure'] = [(I, 'body', 'fn get<', '''
		self.ensure_built(promise)?;
		Ok(self.lookup(promise).unwrap())
	'''), (I, 'body', 'fn get_ref<', '''
		self.ensure_built(promise)?;
		Ok(self.lookup_ref(promise).unwrap())
	'''), (I, 'before', 'fn get<', '''
	/// builds unless there is an artifact
	fn ensure_built<AP, B: ?Sized>(&mut self, promise: &AP) -> Result<(), B::Err>
			where
				B: Builder<ArtCan, BCan>,
				ArtCan: CanSized<B::Artifact>,
				BCan: Can<AP::Builder>,
				AP: Promise<Builder = B, BCan = BCan> {
		if !self.contains_artifact(promise) {
			self.build(promise)?;
		}
		Ok(())
	}
''')]
R['build-match'] = [(I, 'sub', '''		let art_res = promise.builder().builder.build(
			&mut resolver,
		);

''', '''		let accessor = promise.builder();
		let art_res = accessor.builder.build(&mut resolver);

'''), (I, 'sub', '''		art_res.map(move |art_bin| {

			// diagnostics
''', '''		match art_res { Err(e) => Err(e), Ok(art_bin) => {

			// diagnostics
'''), (I, 'sub', '''			self.artifacts.get_mut(&id).unwrap()
		})
''', '''			Ok(self.artifacts.get_mut(&id).unwrap())
		} }
''')]
R['build-id-first'] = [(I, 'sub', '''		// Ensure there is a DynState
		self.ensure_dyn_state(promise);
''', '''		let bid = promise.id();
		let _ = self.ensure_dyn_state(promise);
'''), (I, 'sub', '''			// keep the id
			let id = promise.id();

			// Insert/Replace artifact
			self.artifacts.insert(
				id,
				art_can,
			);
''', '''			let id = bid;
			let _previous = self.artifacts.insert(id, art_can);
''')]
R['track-assoc'] = [(I, 'body', 'fn track_dependency<', '''
		self.make_builder_known(promise);
		let (from, to) = (user.id(), promise.id());
		Self::add_edge(&mut self.dependents, to, from);
		Self::add_edge(&mut self.dependencies, from, to);
		self.known_leaf_builder.remove(&to);

		#[cfg(feature = "diagnostics")]
		self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));
	'''), (I, 'before', 'fn track_dependency<', '''
	/// adds `value` to the set of `key`
	fn add_edge(map: &mut HashMap<BuilderId, HashSet<BuilderId>>, key: BuilderId, value: BuilderId) {
		map.entry(key).or_insert_with(HashSet::new).insert(value);
	}
''')]
R['track-free'] = [(I, 'body', 'fn track_dependency<', '''
		self.make_builder_known(promise);
		let user_id = user.id();
		let promise_id = promise.id();
		add_edge(&mut self.dependents, promise_id, user_id);
		self.known_leaf_builder.remove(&promise_id);
		add_edge(&mut self.dependencies, user_id, promise_id);

		#[cfg(feature = "diagnostics")]
		self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));
	'''), (I, 'sub', '''/// The raw cache. Only for internal use.
///
/// This struct is''', '''/// adds `value` to the set of `key`
fn add_edge(map: &mut HashMap<BuilderId, HashSet<BuilderId>>, key: BuilderId, value: BuilderId) {
	let set = map.entry(key).or_default();
	set.insert(value);
}

/// The raw cache. Only for internal use.
///
/// This struct is''')]
R['track-ifelse'] = [(I, 'body', 'fn track_dependency<', '''
		self.make_builder_known(promise);
		let p = promise.id();
		let u = user.id();
		if let Some(set) = self.dependents.get_mut(&p) {
			set.insert(u);
		} else {
			let mut set = HashSet::new();
			set.insert(u);
			self.dependents.insert(p, set);
		}
		self.known_leaf_builder.remove(&p);
		self.dependencies.entry(u).or_insert_with(HashSet::new).insert(p);

		#[cfg(feature = "diagnostics")]
		self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));
	''')]
R['known-contains'] = [(I, 'body', 'fn make_builder_known<', '''
		let bid = promise.id();
		if self.known_builders.contains_key(&bid) {
			return;
		}
		let weak = promise.canned().can.downgrade();
		self.known_builders.insert(bid, weak);
		self.known_leaf_builder.insert(bid);
	''')]
R['known-byid'] = [(I, 'body', 'fn make_builder_known<', '''
		if !self.is_builder_known(promise) {
			let can = promise.canned().can;
			self.known_leaf_builder.insert(promise.id());
			self.known_builders.insert(promise.id(), can.downgrade());
		}
	''')]
R['known-vacant'] = [(I, 'body', 'fn make_builder_known<', '''
		use std::collections::hash_map::Entry;
		let bid = promise.id();
		if let Entry::Vacant(slot) = self.known_builders.entry(bid) {
			slot.insert(promise.canned().can.downgrade());
			self.known_leaf_builder.insert(bid);
		}
	''')]
R['inv-unlink'] = [(I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		processed.insert(*builder);
		let mut pending = vec![*builder];
		while let Some(bid) = pending.pop() {
			processed.insert(bid);
			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set {
					if processed.contains(&dep) {
						continue;
					}
					if self.remove_dependent(dep, bid) {
						self.known_leaf_builder.insert(dep);
					}
				}
			}
			self.artifacts.remove(&bid);
			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
		}
	'''), (I, 'before', 'fn invalidate_by_id(', '''
	/// removes the dependent and returns whether there is none left
	fn remove_dependent(&mut self, of: BuilderId, user: BuilderId) -> bool {
		let set = self.dependents.get_mut(&of).expect("no counterpart");
		let found = set.remove(&user);
		debug_assert!(found);
		set.is_empty()
	}
''')]
R['inv-deps-first'] = [(I, 'body', 'fn invalidate_by_id(', '''
		let mut processed = HashSet::new();
		processed.insert(*builder);
		let mut pending = Vec::new();
		pending.push(*builder);
		while let Some(bid) = pending.pop() {
			processed.insert(bid);
			self.artifacts.remove(&bid);
			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set {
					if !processed.contains(&dep) {
						let users = self.dependents.get_mut(&dep).expect("Mapped");
						let found = users.remove(&bid);
						debug_assert!(found);
						if users.is_empty() {
							self.known_leaf_builder.insert(dep);
						}
					}
				}
			}
			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
		}
	''')]
R['inv-local-names'] = [(I, 'body', 'fn invalidate_by_id(', '''
		let mut done = HashSet::new();
		done.insert(*builder);
		let mut stack = Vec::new();
		stack.push(*builder);
		while let Some(current) = stack.pop() {
			done.insert(current);
			let users = self.dependents.remove(&current);
			if let Some(users) = users {
				for user in users {
					stack.push(user);
				}
			}
			let used = self.dependencies.remove(&current);
			if let Some(used) = used {
				for dependency in used {
					if !done.contains(&dependency) {
						let set = self.dependents.get_mut(&dependency)
								.expect("Mapped dependency has no dependents counterpart map.");
						let found = set.remove(&current);
						let empty = set.is_empty();
						debug_assert!(found);
						if empty {
							self.known_leaf_builder.insert(dependency);
						}
					}
				}
			}
			if self.known_builders.contains_key(&current) {
				self.known_leaf_builder.insert(current);
			}
			self.artifacts.remove(&current);
		}
	''')]
R['inv-isempty'] = [(I, 'sub', '''						let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf {
''', '''						if self.dependents.get(&dep).map_or(false, |s| s.is_empty()) {
''')]
R['inv-isempty2'] = [(I, 'sub', '''						let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf {
''', '''						if self.dependents[&dep].len() == 0 {
''')]
R['inv-while'] = [(I, 'sub', '''		while let Some(bid) = pending.pop() {
''', '''		while !pending.is_empty() {
			let bid = pending.pop().unwrap();
''')]
R['inv-unwrapdef'] = [(I, 'sub', '''			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
''', '''			for dep in self.dependents.remove(&bid).unwrap_or_default() {
				pending.push(dep);
			}
''')]
R['inv-taken'] = [(I, 'sub', '''			if let Some(set) = self.dependencies.remove(&bid) {
				for dep in set {
''', '''			let taken = match self.dependencies.remove(&bid) {
				Some(s) => s,
				None => HashSet::new(),
			};
			{
				for dep in taken {
''')]
R['forget-helper'] = [(I, 'sub', '''			self.invalidate_by_id(&bid);
			self.dyn_states.remove(&bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.remove(&bid);
''', '''			self.forget(&bid);
'''), (I, 'before', 'fn collect_unreachable_leafs(', '''
	/// removes all about that builder
	fn forget(&mut self, bid: &BuilderId) {
		self.invalidate_by_id(bid);
		self.dyn_states.remove(bid);
		self.known_builders.remove(bid);
		self.known_leaf_builder.remove(bid);
	}
''')]
R['purge-forget'] = [(I, 'body', 'fn purge<', '''
		let bid = promise.id();
		self.forget(bid);
		self.invalidate_by_id(&bid);
		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&BuilderHandle::new(promise));
	'''), (I, 'before', 'fn purge<', '''
	/// removes it
	fn forget(&mut self, bid: BuilderId) {
		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);
		self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);
	}
''')]
R['inv-handle-first'] = [(I, 'body', 'fn invalidate<', '''
		#[cfg(feature = "diagnostics")]
		let handle = BuilderHandle::new(promise);
		let id = promise.id();
		self.invalidate_by_id(&id);
		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&handle);
	''')]
R['leafs-reach'] = [(I, 'sub', '''			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
''', '''			.filter(|bid| !self.is_reachable(bid))
'''), (I, 'before', 'fn collect_unreachable_leafs(', '''
	/// whether there is a strong handle left
	fn is_reachable(&self, bid: &BuilderId) -> bool {
		BCan::upgrade_from_weak(&self.known_builders[bid]).is_some()
	}
''')]
R['leafs-candidates'] = [(I, 'sub', '''		let unreachable_builder_ids: Vec<_> = self.known_leaf_builder.iter()
			// Only retain those which can't be upgraded (i.e. no strong
			// references exist any more).
			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.copied()
			.collect();
''', '''		let mut unreachable_builder_ids = Vec::new();
		for bid in self.known_leaf_builder.iter() {
			if let Some(weak) = self.known_builders.get(bid) {
				if BCan::upgrade_from_weak(weak).is_none() {
					unreachable_builder_ids.push(*bid);
				}
			}
		}
''')]
R['leafs-cloned'] = [(I, 'sub', '''			.copied()
			.collect();
''', '''			.cloned()
			.collect::<Vec<BuilderId>>();
''')]
R['leafs-copied-first'] = [(I, 'sub', '''		let unreachable_builder_ids: Vec<_> = self.known_leaf_builder.iter()
			// Only retain those which can't be upgraded (i.e. no strong
			// references exist any more).
			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.copied()
			.collect();
''', '''		let unreachable_builder_ids: Vec<BuilderId> = self.known_leaf_builder.iter()
			.copied()
			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.collect();
''')]
R['leafs-order'] = [(I, 'sub', '''			self.invalidate_by_id(&bid);
			self.dyn_states.remove(&bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.remove(&bid);
''', '''			self.dyn_states.remove(&bid);
			self.invalidate_by_id(&bid);
			self.known_leaf_builder.remove(&bid);
			self.known_builders.remove(&bid);
''')]
R['clear-collect'] = [(I, 'body', 'fn clear_artifacts(', '''
		self.dependents.clear();
		self.dependencies.clear();
		self.artifacts.clear();
		for bid in self.known_builders.keys() {
			self.known_leaf_builder.insert(*bid);
		}
	''')]
R['clear-copied'] = [(I, 'sub', 'self.known_leaf_builder.extend(self.known_builders.keys());', '''let known = self.known_builders.keys().copied();
		self.known_leaf_builder.extend(known);''')]
R['clear-keys-vec'] = [(I, 'sub', 'self.known_leaf_builder.extend(self.known_builders.keys());', '''let known: Vec<BuilderId> = self.known_builders.keys().copied().collect();
		for bid in known {
			self.known_leaf_builder.insert(bid);
		}''')]
R['clear-all-calls'] = [(I, 'body', 'fn clear_all(', '''
		self.clear_artifacts();
		self.dyn_states.clear();
		self.known_builders.clear();
		self.known_leaf_builder.clear();

		#[cfg(feature = "diagnostics")]
		self.doctor.clear();
	''')]
R['clear-all-new'] = [(I, 'body', 'fn clear_all(', '''
		self.artifacts = HashMap::new();
		self.dyn_states = HashMap::new();
		self.dependents = HashMap::new();
		self.dependencies = HashMap::new();
		self.known_builders = HashMap::new();
		self.known_leaf_builder = HashSet::new();

		#[cfg(feature = "diagnostics")]
		self.doctor.clear();
	''')]
R['dyn-ensure-match'] = [(I, 'body', 'fn ensure_dyn_state<', '''
		self.make_builder_known(promise);
		let state = self.dyn_states.entry(promise.id())
			.or_insert_with(|| Box::new(promise.builder().builder.init_dyn_state()));
		match state.downcast_mut() {
			Some(s) => s,
			None => panic!("Cached dyn state is of invalid type"),
		}
	''')]
R['dyn-cast-q'] = [(I, 'body', 'fn dyn_state_cast_mut<', '''
		let b = self.dyn_states.get_mut(&bid)?;
		Some(b.downcast_mut().expect("Cached dyn state is of invalid type"))
	'''), (I, 'body', 'fn dyn_state_cast_ref<', '''
		let b = self.dyn_states.get(&bid)?;
		Some(b.downcast_ref::<T>().expect("Cached dyn state is of invalid type"))
	''')]
R['dyn-cast-match'] = [(I, 'body', 'fn dyn_state_cast_ref<', '''
		match self.dyn_states.get(&bid) {
			None => None,
			Some(b) => Some(b.downcast_ref().expect("Cached dyn state is of invalid type")),
		}
	''')]
R['dyn-mut-order'] = [(I, 'body', 'fn dyn_state_mut<', '''
		let _ = self.ensure_dyn_state(promise);
		self.invalidate(promise);
		self.ensure_dyn_state(promise)
	''')]
R['known-get'] = [(I, 'body', 'fn is_builder_known_by_id(', '''
		self.known_builders.get(&bid).is_some()
	'''), (I, 'body', 'fn contains_artifact<', '''
		self.artifacts.get(&promise.id()).is_some()
	''')]
R['res-let'] = [(C, 'body', 'fn resolve<', '''
		let user: &Self = &*self;
		let _ = user;
		self.track_dependency(promise);
		let art = self.cache.get(promise);
		art
	'''), (C, 'body', 'fn resolve_ref<', '''
		self.track_dependency(promise);
		let cache = &mut *self.cache;
		cache.get_ref(promise)
	'''), (C, 'body', 'fn resolve_cloned<', '''
		self.resolve_ref(promise).map(|a| a.clone())
	''')]
R['res-state'] = [(C, 'body', 'fn my_state(', '''
		let id = self.user.id();
		match self.cache.dyn_state_cast_mut(id) {
			Some(s) => s,
			None => panic!("DynState not found"),
		}
	''')]
R['cache-lookup-let'] = [(C, 'body', 'pub fn lookup<', '''
		let raw = &self.inner;
		raw.lookup(promise)
	'''), (C, 'body', 'pub fn garbage_collection(', '''
		let raw = &mut self.inner;
		raw.garbage_collection();
	''')]
R['bp-helper'] = [(B, 'body', 'fn builder_ptr(&self) -> *const () {\n\t\tBCan::bin_as_ptr', '''
		self.ptr() as *const ()
	'''), (B, 'body', 'pub fn id(&self) -> BuilderId {\n\t\tBuilderId::new(BCan::bin', '''
		BuilderId::new(self.ptr())
	'''), (B, 'before', 'fn builder_ptr(&self) -> *const () {\n\t\tself.ptr', '''
	/// the address
	fn ptr(&self) -> *const dyn std::any::Any {
		BCan::bin_as_ptr(&self.builder)
	}
''')]
R['bp-struct'] = [(B, 'body', 'fn canned(&self) -> CannedAccessor<BCan> {\n\t\tCannedAccessor {\n\t\t\tcan: BCan::from_bin', '''
		let bin = self.builder.clone();
		let can = BCan::from_bin(bin);
		CannedAccessor { can }
	''')]
R['bp-new-struct'] = [(B, 'body', 'pub fn new(builder: B) -> Self {', '''
		Blueprint {
			builder: BCan::into_bin(builder),
		}
	'''), (B, 'sub0', '''	fn clone(&self) -> Self {
		Blueprint {
			builder: self.builder.clone(),
		}
''', '''	fn clone(&self) -> Self {
		Self::new_binned(self.builder.clone())
''')]
R['bp-from'] = [(B, 'sub0', '''	fn from(builder: B) -> Self {
		Blueprint::new(builder)
''', '''	fn from(builder: B) -> Self {
		Self::new(builder)
''')]
R['bp-unsized-order'] = [(B, 'sub', '''				BlueprintUnsized {
					builder: builder_bin.clone(),
					builder_canned: BCan::from_bin(builder_bin),
				}
''', '''				let bin = builder_bin.clone();
				let canned = BCan::from_bin(builder_bin);
				BlueprintUnsized { builder: bin, builder_canned: canned }
''')]
R['ut-redeem'] = [(U, 'sub', '''		let value = resolver.resolve(&self.inner);

		if let Ok(v) = value {
			*resolver.my_state() = Some(v.clone());

			// Return value
			Ok(v)

		} else {
''', '''		if let Ok(v) = resolver.resolve(&self.inner) {
			let state = resolver.my_state();
			*state = Some(v.clone());
			return Ok(v);
		}
		{
''')]
R['ut-redeem-match'] = [(U, 'sub', '''		let value = resolver.resolve(&self.inner);

		if let Ok(v) = value {
			*resolver.my_state() = Some(v.clone());

			// Return value
			Ok(v)

		} else {
			// Try to return cached value. Panics if very first build fails and
			// no default value was provided.
			// This is documented behavior.
			Ok(resolver.my_state().clone().unwrap())
		}
''', '''		match resolver.resolve(&self.inner) {
			Ok(v) => {
				*resolver.my_state() = Some(v.clone());
				Ok(v)
			}
			Err(_) => {
				let kept = resolver.my_state().clone();
				Ok(kept.expect("no default"))
			}
		}
''')]
R['ut-redeem-as-ref'] = [(U, 'sub', 'Ok(resolver.my_state().clone().unwrap())', 'Ok(resolver.my_state().as_ref().unwrap().clone())')]
R['ut-func'] = [(U, 'sub', '''		let f = &self.inner;
		let state = resolver.my_state();

		f(state)
''', '''		(self.inner)(resolver.my_state())
''')]
R['ut-from'] = [(U, 'sub', '''		Blueprint::new(
			ConstBuilder::new(ArtCan::into_bin(t))
		)
''', '''		let bin = ArtCan::into_bin(t);
		let builder = ConstBuilder::new(bin);
		Blueprint::new(builder)
''')]
R['mod-move'] = [(I, 'sub0', 'impl<BCan: CanStrong> Hash for BuilderEntry<BCan> {\n\tfn hash<H: Hasher>(&self, state: &mut H) {\n\t\tself.id().hash(state);\n\t}\n}\n', 'impl<BCan: CanStrong> Hash for BuilderEntry<BCan> {\n\tfn hash<H: Hasher>(&self, state: &mut H) {\n\t\tlet id = self.id();\n\t\tid.hash(state);\n\t}\n}\n')]
R['gc-count'] = [(I, 'body', 'fn garbage_collection(', '''
		loop {
			let known = self.known_builders.len();
			self.collect_unreachable_leafs();
			if self.known_builders.len() == known {
				break;
			}
		}
	''')]
R['gc-bool'] = [(I, 'body', 'fn garbage_collection(', '''
		let mut again = self.collect_unreachable_leafs();
		while again {
			again = self.collect_unreachable_leafs();
		}
	''')]
R['invdep-ifcontains'] = [(I, 'body', 'fn invalidate_dependents(', '''
		let users: Vec<BuilderId> = match self.dependents.get(builder) {
			Some(set) => set.iter().copied().collect(),
			None => Vec::new(),
		};
		for user in users {
			self.invalidate_by_id(&user);
		}
		if self.is_builder_known_by_id(*builder) {
			self.known_leaf_builder.insert(*builder);
		}
	''')]
R['invdep-clone-match'] = [(I, 'body', 'fn invalidate_dependents(', '''
		let dependents = self.dependents.get(builder).cloned();
		if let Some(dependents) = dependents {
			for dependent in &dependents {
				self.invalidate_by_id(dependent);
			}
		}
		if self.known_builders.contains_key(builder) {
			self.known_leaf_builder.insert(*builder);
		}
	''')]
