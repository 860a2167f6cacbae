"""Third batch: the doctors, and edits of several functions at once."""
from refactors_common import I, C, K, B, U, L, DM, DT, DV

R = {}
BUMP = '''		// Generations inc
		self.count.0 += 1;
		self.count.1 = 0;
'''
R['dt-next-gen'] = [(DT, 'all', BUMP, '\t\tself.next_generation();\n'),
    (DT, 'before', 'fn output(&mut self)', '''
	/// next generation
	fn next_generation(&mut self) {
		self.count = (self.count.0 + 1, 0);
	}
''')]
R['dt-tuple-count'] = [(DT, 'sub', '''		let count = self.count;
		
		let bs = self.builder_str(builder);
		if''', '''		let (generation, instance) = self.count;
		let bs = self.builder_str(builder);
		if'''), (DT, 'all', '''				count.0,
				count.1,
''', '''				generation,
				instance,
''')]
R['dt-output-direct'] = [(DT, 'all', 'self.output()', '&mut self.output'), (DT, 'sub', '&mut self.output.flush()', 'self.output.flush()')]
R['dt-build-single'] = [(DT, 'body', 'fn build(', '''
		let (g, i) = self.count;
		let bs = self.builder_str(builder);
		let art = if self.opts.show_artifact_values {
			artifact.dbg_text.clone()
		} else {
			self.tynm(artifact.type_name)
		};
		if self.opts.show_addresses {
			let ptr = artifact.value.can_as_ptr() as *const ();
			writeln!(self.output(), "built #{}.{} [{:p}] {} => [{:p}] {}", g, i, builder.id(), bs, ptr, art).unwrap();
		} else {
			writeln!(self.output(), "built #{}.{}  {} => {}", g, i, bs, art).unwrap();
		}
		self.output().flush().unwrap();
		self.count.1 += 1;
	''')]
R['dt-inline-args'] = [(DT, 'body', 'fn clear(', '''
		let generation = self.count.0;
		writeln!(self.output(), "Clears generation #{generation}").unwrap();
		self.count.0 += 1;
		self.count.1 = 0;
	'''), (DT, 'body', 'fn resolve(', '''
		let bs = self.builder_str(builder);
		let us = self.builder_str(used);
		if !self.opts.show_addresses {
			writeln!(self.output(), "resolves {bs} -> {us}").unwrap();
		} else {
			writeln!(self.output(), "resolves [{:p}] {bs} -> [{:p}] {us}", builder.id(), used.id()).unwrap();
		}
	''')]
R['dt-expect'] = [(DT, 'all', ').unwrap();', ').expect("output");')]
R['dt-addr-helper'] = [(DT, 'body', 'fn resolve(', '''
		let bs = self.described(builder);
		let us = self.described(used);
		writeln!(self.output(), "resolves {} -> {}", bs, us).unwrap();
	'''), (DT, 'body', 'fn invalidate(', '''
		let what = self.described(builder);
		let generation = self.count.0;
		writeln!(self.output(), "Invalidates generation #{} targeting {}", generation, what).unwrap();
		self.count.0 += 1;
		self.count.1 = 0;
	'''), (DT, 'before', 'fn output(&mut self)', '''
	/// with its address, if wanted
	fn described<BCan>(&self, builder: &BuilderHandle<BCan>) -> String {
		let s = self.builder_str(builder);
		if self.opts.show_addresses {
			format!("[{:p}] {}", builder.id(), s)
		} else {
			s
		}
	}
''')]
R['dt-tynm-clone'] = [(DT, 'body', 'fn builder_str', '''
		let text = if self.opts.show_builder_values {
			builder.dbg_text.to_string()
		} else {
			self.tynm(&builder.type_name)
		};
		text
	''')]
R['dt-push-str'] = [(DT, 'body', 'fn clear(', '''
		let mut line = String::from("Clears generation #");
		line.push_str(&self.count.0.to_string());
		writeln!(self.output(), "{}", line).unwrap();
		self.count.0 += 1;
		self.count.1 = 0;
	''')]
R['dt-write-n'] = [(DT, 'body', 'fn clear(', '''
		let count = self.count;
		write!(self.output(), "Clears generation #{}\\n", count.0).unwrap();
		self.count.1 = 0;
		self.count.0 += 1;
	''')]
R['dv-name-helper'] = [(DV, 'body', 'fn resolve(', '''
		self.node(builder);
		self.node(used);
		let (from, to) = (builder.id(), used.id());
		writeln!(self.output(), r#"  "{:p}" -> "{:p}""#, from, to).unwrap();
		self.output().flush().unwrap();
	'''), (DV, 'sub', '''		let s = self.builder_str(builder);
		writeln!(self.output(),
			r#"  "{:p}" [label = {:?}]"#,
			builder.id(),
			s
		).unwrap();
		
		let s = if''', '''		self.node(builder);
		let s = if'''), (DV, 'before', 'fn output(&mut self)', '''
	/// announces a builder
	fn node<BCan>(&mut self, builder: &BuilderHandle<BCan>) {
		let s = self.builder_str(builder);
		writeln!(self.output(), r#"  "{:p}" [label = {:?}]"#, builder.id(), s).unwrap();
	}
''')]
R['dv-art-locals'] = [(DV, 'sub', '''		let s = if self.opts.show_artifact_values {
			format!(" :\\n{}", artifact.dbg_text)
		} else {
			String::new()
		};
''', '''		let ptr = artifact.value.can_as_ptr() as *const ();
		let mut s = String::new();
		if self.opts.show_artifact_values {
			s = format!(" :\\n{}", artifact.dbg_text);
		}
'''), (DV, 'all', 'artifact.value.can_as_ptr() as *const (),\n			escape', 'ptr,\n			escape')]
R['dv-two-writes'] = [(DV, 'sub', '''		writeln!(self.output(),
			r#"  "{:p}" -> "{}.{}-{:p}" [arrowhead = "none"]"#,
			builder.id(),
			count.0,
			count.1,
			artifact.value.can_as_ptr() as *const ()
		).unwrap();
''', '''		let id = builder.id();
		write!(self.output(), r#"  "{:p}" -> "#, id).unwrap();
		writeln!(self.output(), r#""{}.{}-{:p}" [arrowhead = "none"]"#, count.0, count.1, artifact.value.can_as_ptr() as *const ()).unwrap();
''')]
R['dv-order-bump'] = [(DV, 'sub', '''		self.output().flush().unwrap();
			
		
		self.count.1 += 1;
''', '''		self.count.1 += 1;
		self.output().flush().unwrap();
''')]
R['dv-escape-order'] = [(DV, 'body', 'fn escape(', '''
		let mut out = String::with_capacity(text.len());
		for c in text.chars() {
			match c {
				'"' => out.push_str("\\\\\\""),
				'\\\\' => out.push_str("\\\\\\\\"),
				other => out.push(other),
			}
		}
		out
	''')]
R['dv-into-inner'] = [(DV, 'body', 'fn into_inner(', '''
		self.finish();
		let output = self.output.take();
		output.expect("output")
	'''), (DV, 'body', 'fn drop(', '''
		if let Some(_) = self.output {
			self.finish();
		}
	''')]
R['dv-finish-take'] = [(DV, 'body', 'fn drop(', '''
		if self.output.is_none() {
			return;
		}
		self.finish();
	''')]
# several places at once
R['multi-1'] = [(I, 'body', 'fn is_builder_known_by_id(', '''
		self.known_builders.get(&bid).is_some()
	'''), (I, 'body', 'fn make_builder_known<', '''
		let bid = promise.id();
		if self.is_builder_known_by_id(bid) {
			return;
		}
		self.known_leaf_builder.insert(bid);
		self.known_builders.insert(bid, promise.canned().can.downgrade());
	'''), (I, 'body', 'fn track_dependency<', '''
		self.make_builder_known(promise);
		let used = promise.id();
		let user = user.id();
		self.dependencies.entry(user).or_insert_with(HashSet::new).insert(used);
		self.dependents.entry(used).or_insert_with(HashSet::new).insert(user);
		self.known_leaf_builder.remove(&used);

		#[cfg(feature = "diagnostics")]
		self.doctor.resolve(diag_builder, &BuilderHandle::new(promise));
	'''), (I, 'body', 'fn garbage_collection(', '''
		loop {
			if !self.collect_unreachable_leafs() {
				return;
			}
		}
	''')]
R['multi-2'] = [(I, 'all', 'pending', 'todo'), (I, 'all', 'processed', 'seen'), (I, 'all', 'is_leaf', 'unused'), (I, 'all', 'unreachable_builder_ids', 'dead')]
R['multi-3'] = [(I, 'sub', '''			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
''', '''			self.push_dependents(&bid, &mut pending);
'''), (I, 'before', 'fn invalidate_by_id(', '''
	/// moves the dependents of that builder
	fn push_dependents(&mut self, bid: &BuilderId, pending: &mut Vec<BuilderId>) {
		if let Some(set) = self.dependents.remove(bid) {
			for dep in set {
				pending.push(dep);
			}
		}
	}
''')]
R['multi-4'] = [(I, 'sub', '''			if let Some(set) = self.dependents.remove(&bid) {
				for dep in set {
					pending.push(dep);
				}
			}
''', '''			if let Some(set) = self.dependents.remove(&bid) {
				pending.extend(set);
			}
'''), (I, 'sub', '''			if self.is_builder_known_by_id(bid) {
				self.known_leaf_builder.insert(bid);
			}

			self.artifacts.remove(&bid);

''', '''			self.mark_as_leaf(bid);
			self.artifacts.remove(&bid);
'''), (I, 'sub', '''		if self.is_builder_known_by_id(*builder) {
			self.known_leaf_builder.insert(*builder);
		}
''', '''		self.mark_as_leaf(*builder);
'''), (I, 'before', 'fn invalidate_by_id(', '''
	/// only known builders can be leafs
	fn mark_as_leaf(&mut self, bid: BuilderId) {
		if self.is_builder_known_by_id(bid) {
			self.known_leaf_builder.insert(bid);
		}
	}
''')]
R['multi-5'] = [(I, 'body', 'fn lookup<', '''
		self.stored(&promise.id()).map(|ent| {
			ent.clone().downcast_can()
				.expect("Cached artifact is of invalid type")
		})
	'''), (I, 'body', 'fn lookup_ref<', '''
		self.stored(&promise.id()).map(|ent| {
			ent.downcast_can_ref()
				.expect("Cached artifact is of invalid type")
		})
	'''), (I, 'body', 'fn contains_artifact<', '''
		self.stored(&promise.id()).is_some()
	'''), (I, 'before', 'fn contains_artifact<', '''
	/// the can
	fn stored(&self, bid: &BuilderId) -> Option<&ArtCan> {
		self.artifacts.get(bid)
	}
''')]
R['multi-6'] = [(I, 'body', 'fn invalidate<', '''
		let id = promise.id();
		self.invalidate_by_id(&id);

		#[cfg(feature = "diagnostics")]
		{
			let handle = BuilderHandle::new(promise);
			self.doctor.invalidate(&handle);
		}
	'''), (I, 'body', 'fn dyn_state_mut<', '''
		self.invalidate(promise);
		let state = self.ensure_dyn_state(promise);
		state
	'''), (C, 'body', 'pub fn invalidate<', '''
		let raw = &mut self.inner;
		raw.invalidate(promise)
	''')]
R['multi-7'] = [(I, 'body', 'fn collect_unreachable_leafs(', '''
		let dead = self.dead_leafs();
		let found_any = !dead.is_empty();
		for bid in &dead {
			self.remove_completely(bid);
		}
		found_any
	'''), (I, 'before', 'fn collect_unreachable_leafs(', '''
	/// leafs without strong handles
	fn dead_leafs(&self) -> Vec<BuilderId> {
		self.known_leaf_builder.iter()
			.filter(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_none())
			.copied()
			.collect()
	}

	/// all of it
	fn remove_completely(&mut self, bid: &BuilderId) {
		self.invalidate_by_id(bid);
		self.dyn_states.remove(bid);
		self.known_builders.remove(bid);
		self.known_leaf_builder.remove(bid);
	}
''')]
R['multi-8'] = [(I, 'body', 'fn collect_unreachable_leafs(', '''
		let mut dead: Vec<BuilderId> = Vec::new();
		for bid in &self.known_leaf_builder {
			let weak = &self.known_builders[bid];
			if BCan::upgrade_from_weak(weak).is_none() {
				dead.push(*bid);
			}
		}
		if dead.is_empty() {
			return false;
		}
		while let Some(bid) = dead.pop() {
			self.invalidate_by_id(&bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.remove(&bid);
			self.dyn_states.remove(&bid);
		}
		true
	''')]
R['multi-9'] = [(I, 'body', 'fn purge<', '''
		let id = promise.id();
		self.invalidate_by_id(&id);
		self.artifacts.remove(&id);
		self.dyn_states.remove(&id);
		self.known_builders.remove(&id);
		self.known_leaf_builder.remove(&id);

		#[cfg(feature = "diagnostics")]
		self.doctor.invalidate(&BuilderHandle::new(promise));
	''')]
R['multi-10'] = [(I, 'sub', '''			// Insert/Replace artifact
			self.artifacts.insert(
				id,
				art_can,
			);
			//.expect_none("Built an artifact while it was still in cache");

			// Just unwrap, since we just inserted it
			self.artifacts.get_mut(&id).unwrap()
''', '''			self.store(id, art_can)
'''), (I, 'before', 'fn build<', '''
	/// keeps the artifact
	fn store(&mut self, id: BuilderId, can: ArtCan) -> &mut ArtCan {
		self.artifacts.insert(id, can);
		self.artifacts.get_mut(&id).unwrap()
	}
''')]
R['multi-11'] = [(I, 'sub', '''			// Insert/Replace artifact
			self.artifacts.insert(
				id,
				art_can,
			);
			//.expect_none("Built an artifact while it was still in cache");

			// Just unwrap, since we just inserted it
			self.artifacts.get_mut(&id).unwrap()
''', '''			self.artifacts.remove(&id);
			self.artifacts.entry(id).or_insert(art_can)
''')]
R['multi-12'] = [(I, 'sub', '''			// Insert/Replace artifact
			self.artifacts.insert(
				id,
				art_can,
			);
			//.expect_none("Built an artifact while it was still in cache");

			// Just unwrap, since we just inserted it
			self.artifacts.get_mut(&id).unwrap()
''', '''			if let Some(old) = self.artifacts.insert(id, art_can) {
				drop(old);
			}
			match self.artifacts.get_mut(&id) {
				Some(can) => can,
				None => unreachable!("just inserted"),
			}
''')]
