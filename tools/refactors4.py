"""Fourth batch: all files, in the styles not yet covered."""
from refactors_common import I, C, K, B, U, L, DM, DT, DV

R = {}
# ---- internal.rs
R['r4-inv-visit-helper'] = [(I, 'sub', '''						let found = self.dependents.get_mut(&dep)
								.expect("Mapped dependency has no dependents counterpart map.")
								.remove(&bid);

						// Notice the above code has important side-effects, thus
						// only the return value is tested in the assert macro.
						debug_assert!(found);

						// Check whether this depenencies has other dependents left, or whether it
						// became a leaf now.
						let is_leaf = self.dependents[&dep].is_empty();
						if is_leaf {
							self.known_leaf_builder.insert(dep);
						}
''', '''						let users = self.dependents.get_mut(&dep)
								.expect("Mapped dependency has no dependents counterpart map.");
						let found = users.remove(&bid);
						debug_assert!(found);

						if users.is_empty() {
							self.known_leaf_builder.insert(dep);
						}
''')]
R['r4-inv-is-some-loop'] = [(I, 'sub', '''		while let Some(bid) = pending.pop() {
			// Mark''', '''		while !pending.is_empty() {
			let bid = pending.pop().unwrap();
			// Mark''')]
R['r4-inv-vec-macro'] = [(I, 'sub', '''		let mut pending = Vec::new();
		pending.push(*builder);
''', '''		let mut pending = vec![*builder];
''')]
R['r4-inv-collect-init'] = [(I, 'sub', '''		let mut processed = HashSet::new();
		processed.insert(*builder);

''', '''		let mut processed: HashSet<BuilderId> = HashSet::new();

''')]
R['r4-inv-artifact-first'] = [(I, 'sub', '''			// Mark builder as processed
			processed.insert(bid);
''', '''			// Mark builder as processed
			self.artifacts.remove(&bid);
			processed.insert(bid);
'''), (I, 'sub', '''				self.known_leaf_builder.insert(bid);
			}

			self.artifacts.remove(&bid);

		}
''', '''				self.known_leaf_builder.insert(bid);
			}
		}
''')]
R['r4-inv-users-helper'] = [(I, 'sub', '''			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
''', '''			for dep in self.take_dependents(&bid) {
				pending.push(dep);
			}
'''), (I, 'before', 'fn invalidate_by_id', '''
	/// Removes and gives the dependents of the given builder.
	fn take_dependents(&mut self, bid: &BuilderId) -> HashSet<BuilderId> {
		self.dependents.remove(bid).unwrap_or_default()
	}
''')]
R['r4-inv-continue'] = [(I, 'sub', '''					if !processed.contains(&dep) {
						let found''', '''					if processed.contains(&dep) {
						continue;
					}
					{
						let found''')]
R['r4-inv-mark-helper'] = [(I, 'sub', '''			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
''', '''			self.mark_leaf(bid);
'''), (I, 'sub', '''		if self.is_builder_known_by_id(*builder) {
			self.known_leaf_builder.insert(*builder);
		}
''', '''		self.mark_leaf(*builder);
'''), (I, 'before', 'fn invalidate_by_id', '''
	/// Lists a known builder as leaf.
	fn mark_leaf(&mut self, bid: BuilderId) {
		if self.known_builders.contains_key(&bid) {
			self.known_leaf_builder.insert(bid);
		}
	}
''')]
R['r4-invdep-vec'] = [(I, 'sub', '''		if let Some(set) = self.dependents.get(builder).cloned() {
			for dep in set {
				self.invalidate_by_id(&dep);
			}
		}
''', '''		let users: Vec<BuilderId> = match self.dependents.get(builder) {
			Some(set) => set.iter().copied().collect(),
			None => Vec::new(),
		};
		for dep in users {
			self.invalidate_by_id(&dep);
		}
''')]
R['r4-invdep-unwrap-or'] = [(I, 'sub', '''		if let Some(set) = self.dependents.get(builder).cloned() {
			for dep in set {
				self.invalidate_by_id(&dep);
			}
		}
''', '''		let set = self.dependents.get(builder).cloned().unwrap_or_default();
		for dep in &set {
			self.invalidate_by_id(dep);
		}
''')]
R['r4-gc-until'] = [(I, 'sub', '''		while self.collect_unreachable_leafs() {}
''', '''		let mut again = true;
		while again {
			again = self.collect_unreachable_leafs();
		}
''')]
R['r4-gc-inline-break'] = [(I, 'sub', '''		while self.collect_unreachable_leafs() {}
''', '''		loop {
			let found = self.collect_unreachable_leafs();
			if !found {
				return;
			}
		}
''')]
R['r4-leafs-forget'] = [(I, 'sub', '''		for bid in unreachable_builder_ids {
			self.invalidate_by_id(&bid);
			self.dyn_states.remove(&bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.remove(&bid);
		}

		found_any
''', '''		for bid in &unreachable_builder_ids {
			self.invalidate_by_id(bid);
			self.known_leaf_builder.remove(bid);
			self.known_builders.remove(bid);
			self.dyn_states.remove(bid);
		}

		found_any
''')]
R['r4-leafs-explicit'] = [(I, 'sub', '''		let unreachable_builder_ids: Vec<_> = self.known_leaf_builder.iter()
			// Only retain those which can't be upgraded (i.e. no strong
			// references exist any more).
			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.copied()
			.collect();
''', '''		let mut unreachable_builder_ids = Vec::new();
		for bid in self.known_leaf_builder.iter() {
			let weak = &self.known_builders[bid];
			if BCan::upgrade_from_weak(weak).is_none() {
				unreachable_builder_ids.push(*bid);
			}
		}
''')]
R['r4-leafs-match-weak'] = [(I, 'sub', '''			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.copied()''', '''			.copied()
			.filter(|bid| match BCan::upgrade_from_weak(&self.known_builders[bid]) {
				Some(_) => false,
				None => true,
			})''')]
R['r4-track-ids'] = [(I, 'sub', '''		// Map dependents (`promise` has new dependent `user`)
		self.dependents.entry(promise.id())
			.or_insert_with(HashSet::new)
			.insert(user.id());

		// Unmark the promise as leaf, since it has now at least one depenency
		self.known_leaf_builder.remove(&promise.id());

		// Revers mapping (`user` depends on `promise`)
		self.dependencies.entry(user.id())
			.or_insert_with(HashSet::new)
			.insert(promise.id());
''', '''		let used = promise.id();
		let using = user.id();

		self.known_leaf_builder.remove(&used);
		self.dependencies.entry(using).or_default().insert(used);
		self.dependents.entry(used).or_default().insert(using);
''')]
R['r4-track-link-helper'] = [(I, 'sub', '''		// Map dependents (`promise` has new dependent `user`)
		self.dependents.entry(promise.id())
			.or_insert_with(HashSet::new)
			.insert(user.id());

		// Unmark the promise as leaf, since it has now at least one depenency
		self.known_leaf_builder.remove(&promise.id());

		// Revers mapping (`user` depends on `promise`)
		self.dependencies.entry(user.id())
			.or_insert_with(HashSet::new)
			.insert(promise.id());
''', '''		self.link(user.id(), promise.id());
'''), (I, 'before', 'pub(super) fn track_dependency', '''
	/// Records that `user` depends on `used`.
	fn link(&mut self, user: BuilderId, used: BuilderId) {
		let users = self.dependents.entry(used).or_insert_with(HashSet::new);
		users.insert(user);
		let uses = self.dependencies.entry(user).or_insert_with(HashSet::new);
		uses.insert(used);
		self.known_leaf_builder.remove(&used);
	}
''')]
R['r4-build-split'] = [(I, 'sub', '''		art_res.map(move |art_bin| {
''', '''		let art_bin = match art_res {
			Ok(bin) => bin,
			Err(err) => return Err(err),
		};
		{
'''), (I, 'sub', '''			// Just unwrap, since we just inserted it
			self.artifacts.get_mut(&id).unwrap()
		})
''', '''			// Just unwrap, since we just inserted it
			Ok(self.artifacts.get_mut(&id).unwrap())
		}
''')]
R['r4-build-prepare'] = [(I, 'sub', '''		// Ensure that the promise is known, because we will add its dynamic
		// state & (possibly) its artifact.
		self.make_builder_known(promise);

		// Ensure there is a DynState
		self.ensure_dyn_state(promise);
''', '''		// Ensure there is a DynState (and that the promise is known)
		self.ensure_dyn_state(promise);
''')]
R['r4-build-run-helper'] = [(I, 'sub', '''		// Create a temporary resolver
		let mut resolver = Resolver {
			user: &ent,
			cache: self,
			#[cfg(feature = "diagnostics")]
			diag_builder: &diag_builder,
			_b: PhantomData,
		};

		// Construct the artifact
		let art_res = promise.builder().builder.build(
			&mut resolver,
		);
''', '''		// Construct the artifact
		let art_res = {
			let accessor = promise.builder();
			accessor.builder.build(&mut Resolver {
				user: &ent,
				cache: self,
				#[cfg(feature = "diagnostics")]
				diag_builder: &diag_builder,
				_b: PhantomData,
			})
		};
''')]
R['r4-get-early-return'] = [(I, 'body', 'pub(crate) fn get<AP', '''
		if let Some(art) = self.lookup(promise) {
			return Ok(art);
		}
		let can = self.build(promise)?.clone();
		Ok(can.downcast_can().expect("Just build artifact is of invalid type"))
	''')]
R['r4-get-ref-contains'] = [(I, 'body', 'pub(crate) fn get_ref<AP', '''
		if !self.contains_artifact(promise) {
			self.build(promise)?;
		}
		Ok(self.lookup_ref(promise).unwrap())
	''')]
R['r4-purge-once'] = [(I, 'sub', '''		self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);

''', '''		self.dyn_states.remove(&bid);

''')]
R['r4-clear-loop'] = [(I, 'sub', '''		self.known_leaf_builder.extend(self.known_builders.keys());
''', '''		for bid in self.known_builders.keys() {
			self.known_leaf_builder.insert(*bid);
		}
''')]
R['r4-dyn-mut-helper'] = [(I, 'body', 'pub(crate) fn dyn_state<AP', '''
		let state = self.ensure_dyn_state(promise);
		&*state
	''')]
R['r4-lookup-mut-if'] = [(I, 'sub', '''		self.artifacts.get_mut(&id).map(
			|ent| {
				// Ensure value type
				ent.downcast_can_mut()
					.expect("Cached artifact is of invalid type")
			}
		)
''', '''		if let Some(can) = self.artifacts.get_mut(&id) {
			Some(can.downcast_can_mut().expect("Cached artifact is of invalid type"))
		} else {
			None
		}
''')]
R['r4-known-if'] = [(I, 'sub', '''		let leafs = &mut self.known_leaf_builder;

		self.known_builders.entry(bid).or_insert_with(
			|| {
				// Here, the builder was not known befor!
				// Thus it must be a leaf
				leafs.insert(bid);

				// Return downgraded can
				promise.canned().can.downgrade()
			}
		);
''', '''		if self.is_builder_known_by_id(bid) {
			return;
		}
		let weak = promise.canned().can.downgrade();
		self.known_builders.insert(bid, weak);
		self.known_leaf_builder.insert(bid);
''')]
# ---- cache.rs / lib.rs / utils.rs
R['r4-unpack-trait'] = [(L, 'sub', '''    match res {
        Ok(t) => t,
        Err(n) => match n {},
    }
''', '''    res.unwrap_or_else(|n| match n {})
''')]
R['r4-redeem-early'] = [(U, 'sub', '''		if let Ok(v) = value {
''', '''		let kept = match value {
			Ok(v) => Some(v),
			Err(_) => None,
		};
		if let Some(v) = kept {
''')]
R['r4-redeem-replace'] = [(U, 'sub', '''			*resolver.my_state() = Some(v.clone());
''', '''			let state = resolver.my_state();
			*state = Some(v.clone());
''')]
R['r4-redeem-expect'] = [(U, 'subn0', '''resolver.my_state().clone().unwrap()''', '''match resolver.my_state() {
				Some(v) => v.clone(),
				None => panic!("no artifact to redeem with"),
			}''')]
R['r4-func-direct'] = [(U, 'sub', '''		let f = &self.inner;
		let state = resolver.my_state();

		f(state)
''', '''		(self.inner)(resolver.my_state())
''')]
R['r4-cloned-question'] = [(U, 'sub', '''		resolver.resolve_cloned(&self.inner)
			.map(ArtCan::into_bin)
''', '''		let value = resolver.resolve_cloned(&self.inner)?;
		Ok(ArtCan::into_bin(value))
''')]
R['r4-cloned-match'] = [(U, 'sub', '''		resolver.resolve_cloned(&self.inner)
			.map(ArtCan::into_bin)
''', '''		match resolver.resolve_cloned(&self.inner) {
			Ok(value) => Ok(ArtCan::into_bin(value)),
			Err(err) => Err(err),
		}
''')]
R['r4-conf-let'] = [(U, 'sub', '''		Ok(ArtCan::into_bin(resolver.my_state().clone()))
''', '''		let current = resolver.my_state();
		let bin = ArtCan::into_bin(current.clone());
		Ok(bin)
''')]
# ---- blueprint.rs / canning.rs
R['r4-bp-id-promise'] = [(B, 'subn0', '''	fn builder(&self) -> BuilderAccessor<B> {
		BuilderAccessor {
			builder: self.builder.as_ref(),
		}
	}
''', '''	fn builder(&self) -> BuilderAccessor<B> {
		let builder: &B = self.builder.as_ref();
		BuilderAccessor { builder }
	}
''')]
R['r4-bp-canned-let'] = [(B, 'subn0', '''		CannedAccessor {
			can: BCan::from_bin(self.builder.clone()),
		}
''', '''		let bin = self.builder.clone();
		let can = BCan::from_bin(bin);
		CannedAccessor { can }
''')]
R['r4-bp-new-inline'] = [(B, 'subn0', '''		let bin = BCan::into_bin(builder);

		Self::new_binned(bin)
''', '''		Self::new_binned(BCan::into_bin(builder))
''')]
R['r4-bp-unsized-new-binned'] = [(B, 'sub', '''				BlueprintUnsized {
					builder: builder_bin.clone(),
					builder_canned: BCan::from_bin(builder_bin),
				}
''', '''				let builder = builder_bin.clone();
				let builder_canned = BCan::from_bin(builder_bin);
				BlueprintUnsized { builder, builder_canned }
''')]
R['r4-bp-from-newbinned'] = [(B, 'sub', '''				Self {
					builder: sized_bp.builder.clone(),
					builder_canned: BCan::from_bin(sized_bp.builder),
				}
''', '''				Self::new_binned(sized_bp.builder)
''')]
R['r4-bp-eq-op'] = [(B, 'all', 'self.id().eq(&other.id())', 'self.id() == other.id()')]
R['r4-can-box-new'] = [(K, 'subn0', '''		self.downcast().ok()
''', '''		match self.downcast() {
			Ok(bin) => Some(bin),
			Err(_) => None,
		}
''')]
R['r4-can-ba-question'] = [(K, 'sub', '''				self.0.downcast_can().map( |bin| {
					Bp::new_binned(bin)
				})
''', '''				let bin = self.0.downcast_can()?;
				Some(Bp::new_binned(bin))
''')]
R['r4-can-ba-from'] = [(K, 'all', '''				BuilderArtifact(b.canned().can)
''', '''				let can = b.canned().can;
				BuilderArtifact(can)
''')]
# ---- diagnostics
R['r4-dm-eq-op'] = [(DM, 'sub', '''		self.id.eq(&other.id)
''', '''		self.id == other.id
'''), (DM, 'sub', '''		(self.value.can_as_ptr())
			.eq(&other.value.can_as_ptr())
''', '''		self.value.can_as_ptr() == other.value.can_as_ptr()
''')]
R['r4-dm-eq-accessor'] = [(DM, 'sub', '''		self.id.eq(&other.id)
''', '''		self.id() == other.id()
''')]
R['r4-dm-handle-order'] = [(DM, 'sub', '''		let dbg_text = format!("{:#?}", &value.builder().builder);
		let id = value.id();

		BuilderHandle {
			value: value.canned().can,
			id,
			type_name: std::any::type_name::<AP::Builder>(),
			dbg_text,
		}
''', '''		let canned = value.canned();
		let type_name = std::any::type_name::<AP::Builder>();

		BuilderHandle {
			id: value.id(),
			type_name,
			dbg_text: format!("{:#?}", value.builder().builder),
			value: canned.can,
		}
''')]
R['r4-dt-resolve-pair'] = [(DT, 'sub', '''		let bs = self.builder_str(builder);
		let us = self.builder_str(used);
''', '''		let (bs, us) = (self.builder_str(builder), self.builder_str(used));
''')]
R['r4-dt-art-str'] = [(DT, 'sub', '''		if self.opts.show_artifact_values {
			writeln!(self.output(),
				"{}",
				artifact.dbg_text,
			).unwrap();
		} else {
			let s = self.tynm(artifact.type_name);
			writeln!(self.output(),
				"{}",
				s,
			).unwrap();
		}
''', '''		let art = self.artifact_str(artifact);
		writeln!(self.output(), "{}", art).unwrap();
'''), (DT, 'before', 'fn output(&mut self)', '''
	/// Stringify given artifact entry.
	fn artifact_str<ArtCan>(&self, artifact: &ArtifactHandle<ArtCan>) -> String {
		if self.opts.show_artifact_values {
			artifact.dbg_text.clone()
		} else {
			self.tynm(artifact.type_name)
		}
	}
''')]
R['r4-dt-addr-local'] = [(DT, 'subn0', '''		if self.opts.show_addresses {
			writeln!(self.output(),
				r#"resolves [{:p}] {} -> [{:p}] {}"#,
				builder.id(),
				bs,
				used.id(),
				us,
			).unwrap();
		} else {''', '''		let addresses = self.opts.show_addresses;
		if addresses {
			let from = builder.id();
			let to = used.id();
			writeln!(self.output(), "resolves [{:p}] {} -> [{:p}] {}", from, bs, to, us).unwrap();
		} else {''')]
R['r4-dt-count-early'] = [(DT, 'sub', '''		self.output().flush().unwrap();
		
		self.count.1 += 1;
''', '''		self.count.1 += 1;
		self.output().flush().unwrap();
''')]
R['r4-dt-fresh-count'] = [(DT, 'all', '''		// Generations inc
		self.count.0 += 1;
		self.count.1 = 0;
''', '''		self.count = (self.count.0 + 1, 0);
''')]
R['r4-dv-edge-first-local'] = [(DV, 'sub', '''		writeln!(self.output(),
			r#"  "{:p}" -> "{:p}""#,
			builder.id(),
			used.id()
		).unwrap();
''', '''		let (from, to) = (builder.id(), used.id());
		writeln!(self.output(), "  \\"{:p}\\" -> \\"{:p}\\"", from, to).unwrap();
''')]
R['r4-dv-drop-if-let'] = [(DV, 'sub', '''		if self.output.is_some() {
			self.finish();
		}
''', '''		if self.output.is_none() {
			return;
		}
		self.finish();
''')]
R['r4-dv-into-order'] = [(DV, 'sub', '''		self.finish();
		self.output.take().unwrap()
''', '''		self.finish();
		match self.output.take() {
			Some(output) => output,
			None => unreachable!(),
		}
''')]
R['r4-dv-label'] = [(DV, 'sub', '''		let s = if self.opts.show_artifact_values {
			format!(" :\\n{}", artifact.dbg_text)
		} else {
			String::new()
		};
''', '''		let s = self.artifact_str(artifact);
'''), (DV, 'before', 'fn output(&mut self)', '''
	/// the value of the artifact, if asked for
	fn artifact_str<ArtCan>(&self, artifact: &ArtifactHandle<ArtCan>) -> String {
		if !self.opts.show_artifact_values {
			return String::new();
		}
		format!(" :\\n{}", artifact.dbg_text)
	}
''')]
R['r4-dv-escape-chain'] = [(DV, 'body', 'fn escape(', '''
	let backslashes = text.replace("\\\\", "\\\\\\\\");
	backslashes.replace("\\"", "\\\\\\"")
''')]
R['r4-dv-next-gen'] = [(DV, 'body', 'fn clear(&mut self)', '''
		let (generation, _) = self.count;
		self.count = (generation + 1, 0);
	''')]

PURGE = '''		// Remove weak reference of builder since we will remove all references
		// to it
		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);

		// Purge artifact & dyn state
		self.artifacts.remove(&bid);
		self.dyn_states.remove(&bid);

		// Invalidate dependents
		self.invalidate_by_id(&promise.id());

'''
def purge(*l):
    m = dict(k='self.known_builders.remove(&bid);', l='self.known_leaf_builder.remove(&bid);', a='self.artifacts.remove(&bid);', d='self.dyn_states.remove(&bid);', i='self.invalidate_by_id(&bid);',
             e='#[cfg(feature = "diagnostics")]\n\t\tself.doctor.invalidate(&BuilderHandle::new(promise));')
    return ''.join('\t\t' + m[x] + '\n' for x in l)
for o in ('akild', 'dkil', 'ikld', 'kidl', 'kild', 'dikl', 'akdil', 'dlki'):
    R['r4-purge-' + o] = [(I, 'sub', PURGE, purge(*o) + '\n')]
EV = PURGE + '''		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&BuilderHandle::new(promise));
'''
R['r4-purge-event'] = [(I, 'sub', EV, purge(*'ekladi'))]
R['r4-invdep-swap'] = [(I, 'body', 'fn invalidate_dependents(', '''
		if self.is_builder_known_by_id(*builder) {
			self.known_leaf_builder.insert(*builder);
		}
		if let Some(set) = self.dependents.get(builder).cloned() {
			for dep in set {
				self.invalidate_by_id(&dep);
			}
		}
	''')]
def collect(*l):
    return ''.join('\t\t\t' + dict(i='self.invalidate_by_id(&bid);', d='self.dyn_states.remove(&bid);', k='self.known_builders.remove(&bid);', l='self.known_leaf_builder.remove(&bid);')[x] + '\n' for x in l)
for o in ('kild', 'kidl', 'dkil', 'kldi', 'klid', 'idlk'):
    R['r4-leafs-' + o] = [(I, 'sub', collect(*'idkl'), collect(*o))]
LEAFB = '''			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}

			self.artifacts.remove(&bid);
'''
DEPS = '''			// Remove dependencies too
			if let Some(set) = self.dependencies.remove(&bid) {
'''
R['r4-inv-art-first'] = [(I, 'sub', LEAFB, '''			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
'''), (I, 'sub', DEPS, '			self.artifacts.remove(&bid);\n' + DEPS)]
R['r4-inv-leaf-first'] = [(I, 'sub', LEAFB, '''			self.artifacts.remove(&bid);
'''), (I, 'sub', DEPS, '''			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}
''' + DEPS)]
R['r4-inv-leaf-art-first'] = [(I, 'sub', LEAFB, ''), (I, 'sub', DEPS, LEAFB + DEPS)]
DEPT = '''			// Get all dependents and invalidate them too
			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}

'''
R['r4-inv-deps-first'] = [(I, 'sub', DEPT, ''), (I, 'sub', '''			// bid it self has been inv''', DEPT + '''			// bid it self has been inv''')]
R['r4-no-first-processed'] = [(I, 'sub', '		processed.insert(*builder);\n', '')]
R['r4-track-leaf-twice'] = [(I, 'sub', '''		self.make_builder_known(promise);
		debug_assert!(self.is_builder_known_by_id(user.id()),''', '''		self.known_leaf_builder.remove(&promise.id());
		self.make_builder_known(promise);
		debug_assert!(self.is_builder_known_by_id(user.id()),''')]
R['r4-track-known-late'] = [(I, 'sub', '''		self.make_builder_known(promise);
		debug_assert!(self.is_builder_known_by_id(user.id()),
			"Tracking dependency for unknown builder");
''', ''), (I, 'sub', '''		// Unmark the promise as leaf''', '''		self.make_builder_known(promise);
		debug_assert!(self.is_builder_known_by_id(user.id()),
			"Tracking dependency for unknown builder");

		// Unmark the promise as leaf''')]
