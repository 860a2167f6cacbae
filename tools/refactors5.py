"""Fifth batch: the less covered files."""
from refactors_common import I, C, K, B, U, L, DM, DT, DV

R = {}
# ---- cache.rs
R['r5-c-get-let'] = [(C, 'sub', '''		self.inner.get(promise)
''', '''		let cache = &mut self.inner;
		cache.get(promise)
''')]
R['r5-c-lookup-cloned'] = [(C, 'sub', '''		self.inner.lookup_cloned(promise)
''', '''		self.lookup_ref(promise).cloned()
''')]
R['r5-c-get-cloned'] = [(C, 'sub', '''		self.inner.get_cloned(promise)
''', '''		let artifact = self.inner.get_ref(promise)?;
		Ok(artifact.clone())
''')]
R['r5-c-clear-semi'] = [(C, 'sub', '''		self.inner.clear_all()
''', '''		self.inner.clear_all();
'''), (C, 'sub', '''		self.inner.clear_artifacts()
''', '''		self.inner.clear_artifacts();
'''), (C, 'sub', '''		self.inner.garbage_collection()
''', '''		self.inner.garbage_collection();
'''), (C, 'sub', '''		self.inner.purge(promise)
''', '''		self.inner.purge(promise);
'''), (C, 'sub', '''		self.inner.invalidate(promise)
''', '''		self.inner.invalidate(promise);
''')]
R['r5-c-default-self'] = [(C, 'sub', '''		CacheOwned::new()
''', '''		Self::new()
''')]
R['r5-c-with-doctor'] = [(C, 'sub', '''				Self {
					inner: RawCache::new_with_doctor(Default::default())
				}
''', '''				Self::new_with_doctor(DefDoctor::default())
''')]
R['r5-c-doctor-let'] = [(C, 'sub', '''				&mut self.inner.doctor
''', '''				let cache = &mut self.inner;
				&mut cache.doctor
'''), (C, 'sub', '''				self.inner.doctor
			}
''', '''				let RawCache { doctor, .. } = self.inner;
				doctor
			}
''')]
R['r5-c-track-cfg'] = [(C, 'sub', '''		cfg_if! {
			if #[cfg(feature = "diagnostics")] {
				self.cache.track_dependency(
					self.user, self.diag_builder, promise)
			} else {
				self.cache.track_dependency(
					self.user, promise)
			}
		}
''', '''		#[cfg(feature = "diagnostics")]
		self.cache.track_dependency(self.user, self.diag_builder, promise);
		#[cfg(not(feature = "diagnostics"))]
		self.cache.track_dependency(self.user, promise);
''')]
R['r5-c-track-user'] = [(C, 'sub', '''		cfg_if! {
			if #[cfg(feature = "diagnostics")] {
				self.cache.track_dependency(
					self.user, self.diag_builder, promise)
			} else {
				self.cache.track_dependency(
					self.user, promise)
			}
		}
''', '''		let user = self.user;

		cfg_if! {
			if #[cfg(feature = "diagnostics")] {
				let diag_user = self.diag_builder;
				self.cache.track_dependency(user, diag_user, promise)
			} else {
				self.cache.track_dependency(user, promise)
			}
		}
''')]
R['r5-c-resolve-cache-local'] = [(C, 'sub', '''		self.track_dependency(promise);
		self.cache.get_ref(promise)
''', '''		self.track_dependency(promise);
		let cache = &mut *self.cache;
		cache.get_ref(promise)
''')]
R['r5-c-resolve-result'] = [(C, 'sub', '''		self.track_dependency(promise);
		self.cache.get(promise)
''', '''		self.track_dependency(promise);
		let res = self.cache.get(promise);
		res
''')]
R['r5-c-resolve-cloned-via-ref'] = [(C, 'sub', '''		self.track_dependency(promise);
		self.cache.get_cloned(promise)
''', '''		self.resolve_ref(promise).map(|artifact| artifact.clone())
''')]
R['r5-c-rename-user'] = [(C, 'all', 'user: &', 'requester: &'), (C, 'all', 'self.user', 'self.requester'),
	(I, 'sub', 'user: &ent,', 'requester: &ent,')]
# ---- blueprint.rs
R['r5-b-hash-ufcs'] = [(B, 'all', 'self.id().hash(state);', 'let id = self.id();\n\t\tid.hash(state);')]
R['r5-b-hash-fn'] = [(B, 'all', 'self.id().hash(state);', 'Hash::hash(&self.id(), state);')]
R['r5-b-eq-ptr'] = [(B, 'all', 'self.id().eq(&other.id())', 'self.builder_ptr() == other.builder_ptr()')]
R['r5-b-eq-ptr-eq'] = [(B, 'all', 'self.id().eq(&other.id())', 'std::ptr::eq(self.builder_ptr(), other.builder_ptr())')]
R['r5-b-eq-let'] = [(B, 'all', 'self.id().eq(&other.id())', 'let own = self.id();\n\t\tlet others = other.id();\n\t\town == others')]
R['r5-b-dyn-new-from-bp'] = [(B, 'sub', '''		let (bin_dyn, can) = BCan::can_unsized(BCan::into_bin(builder));

		BlueprintDyn {
			builder: bin_dyn,
			builder_canned: can,
		}
''', '''		Self::from_bp(Blueprint::new(builder))
''')]
R['r5-b-dyn-from-parts'] = [(B, 'sub', '''		let (bin_dyn, can) = BCan::can_unsized(BCan::into_bin(builder));

		BlueprintDyn {
			builder: bin_dyn,
			builder_canned: can,
		}
	}
}
''', '''		Self::from_parts(BCan::can_unsized(BCan::into_bin(builder)))
	}
}

impl<ArtCan, BCan, Art, Err, DynSt> BlueprintDyn<ArtCan, BCan, Art, Err, DynSt>
	where
		BCan: Can<dyn Builder<ArtCan, BCan, Artifact=Art, Err=Err, DynState=DynSt>>, {

	fn from_parts(parts: (BCan::Bin, BCan)) -> Self {
		BlueprintDyn {
			builder: parts.0,
			builder_canned: parts.1,
		}
	}
}
'''), (B, 'sub', '''		let (bin_dyn, can) = BCan::can_unsized(blueprint.builder);

		BlueprintDyn {
			builder: bin_dyn,
			builder_canned: can,
		}
''', '''		Self::from_parts(BCan::can_unsized(blueprint.builder))
''')]
R['r5-b-new-unsized-via-bp'] = [(B, 'sub', '''				let (bin_dyn, can) = BCan::can_unsized(BCan::into_bin(builder));

				BlueprintUnsized {
					builder: bin_dyn,
					builder_canned: can,
				}
''', '''				Self::from_sized_bp(Blueprint::new(builder))
''')]
R['r5-b-new-unsized-destr'] = [(B, 'sub', '''				let (bin_dyn, can) = BCan::can_unsized(BCan::into_bin(builder));

				BlueprintUnsized {
					builder: bin_dyn,
					builder_canned: can,
				}
''', '''				let bin = BCan::into_bin(builder);
				let (builder, builder_canned) = BCan::can_unsized(bin);

				BlueprintUnsized {
					builder,
					builder_canned,
				}
''')]
R['r5-b-into-unsized-destr'] = [(B, 'sub', '''				BlueprintUnsized {
					builder: self.builder,
					builder_canned: self.builder_canned,
				}
''', '''				let BlueprintDyn { builder, builder_canned } = self;

				BlueprintUnsized { builder, builder_canned }
''')]
R['r5-b-id-helper'] = [(B, 'sub', '''	pub fn id(&self) -> BuilderId {
		BuilderId::new(BCan::bin_as_ptr(&self.builder))
	}
''', '''	pub fn id(&self) -> BuilderId {
		Self::id_of(&self.builder)
	}

	fn id_of(bin: &BCan::Bin) -> BuilderId {
		BuilderId::new(BCan::bin_as_ptr(bin))
	}
''')] if False else [(B, 'sub', '''	pub fn id(&self) -> BuilderId {
		BuilderId::new(BCan::bin_as_ptr(&self.builder))
	}
''', '''	pub fn id(&self) -> BuilderId {
		let ptr = BCan::bin_as_ptr(&self.builder);
		BuilderId::new(ptr)
	}
''')]
R['r5-b-canned-assoc'] = [(B, 'sub', '''			can: BCan::from_bin(self.builder.clone()),
''', '''			can: <BCan as CanSized<B>>::from_bin(self.builder.clone()),
''')]
R['r5-b-builder-asref'] = [(B, 'allregex', r'builder: self\.builder\.as_ref\(\),', 'builder: AsRef::as_ref(&self.builder),')]
R['r5-b-clone-let'] = [(B, 'subn0', '''		Blueprint {
			builder: self.builder.clone(),
		}
''', '''		Self::new_binned(self.builder.clone())
''')]
R['r5-b-clone-swap'] = [(B, 'sub', '''		BlueprintDyn {
			builder: self.builder.clone(),
			builder_canned: self.builder_canned.clone(),
		}
''', '''		let builder_canned = self.builder_canned.clone();
		let builder = self.builder.clone();

		Self { builder, builder_canned }
''')]
R['r5-b-promise-id'] = [(B, 'all', '''	fn id(&self) -> BuilderId {
		self.id()
	}
''', '''	fn id(&self) -> BuilderId {
		Self::id(self)
	}
''')]
R['r5-b-new-binned-shorthand'] = [(B, 'sub', '''	pub(crate) fn new_binned(builder_bin: BCan::Bin) -> Self {
		Blueprint {
			builder: builder_bin,
		}
''', '''	pub(crate) fn new_binned(builder: BCan::Bin) -> Self {
		Self { builder }
''')]
R['r5-b-unsized-new-binned-order'] = [(B, 'sub', '''				BlueprintUnsized {
					builder: builder_bin.clone(),
					builder_canned: BCan::from_bin(builder_bin),
				}
''', '''				let builder = builder_bin.clone();
				let builder_canned = BCan::from_bin(builder_bin);

				BlueprintUnsized { builder, builder_canned }
''')]
R['r5-b-from-into'] = [(B, 'sub', '''				BlueprintUnsized::from_sized_bp(builder)
''', '''				let (bin_dyn, can) = BCan::can_unsized(builder.builder);

				Self { builder: bin_dyn, builder_canned: can }
''')]
# ---- lib.rs
R['r5-l-id-cast'] = [(L, 'sub', '''		BuilderId(ptr as *const () as usize)
''', '''		let addr = ptr as *const ();
		Self(addr as usize)
''')]
R['r5-l-id-let'] = [(L, 'sub', '''		self.0 as *const ()
''', '''		let BuilderId(addr) = *self;
		addr as *const ()
''')]
R['r5-l-unpack-unwrap-else'] = [(L, 'sub', '''    match res {
        Ok(t) => t,
        Err(n) => match n {},
    }
''', '''    res.unwrap_or_else(|n| match n {})
''')]
R['r5-l-unpack-inline'] = [(L, 'sub', '''    fn unpack(self) -> T {
        unpack(self)
''', '''    fn unpack(self) -> T {
        match self {
            Ok(t) => t,
            Err(n) => match n {},
        }
''')]
# ---- canning.rs
R['r5-k-into-new'] = [(K, 'subn0', '''		Rc::new(t)
''', '''		let bin = Rc::new(t);
		bin
''')]
R['r5-k-rc-from'] = [(K, 'subn0', '''		Rc::new(t)
''', '''		Rc::from(t)
''')]
R['r5-k-from-let'] = [(K, 'all', '''	fn from_bin(b: Self::Bin) -> Self {
		b
	}
''', '''	fn from_bin(b: Self::Bin) -> Self {
		let can: Self = b;
		can
	}
''')]
R['r5-k-downgrade-ufcs'] = [(K, 'sub', '''		Rc::downgrade(self)
''', '''		let this: &Rc<dyn Any> = self;
		Rc::downgrade(this)
''')]
R['r5-k-unsized-ret'] = [(K, 'subn0', '''		let rc_any: Rc<dyn Any> = rc;

		(
			rc_dyn,
			rc_any,
		)
''', '''		(rc_dyn, rc)
''')]
R['r5-k-unsized-direct'] = [(K, 'subn0', '''		let rc = builder;
''', ''), (K, 'subn0', '''			rc.clone();

		let rc_any: Rc<dyn Any> = rc;

		(
			rc_dyn,
			rc_any,
		)
''', '''			builder.clone();
		(
			rc_dyn,
			builder,
		)
''')]
R['r5-k-from-inner'] = [(K, 'sub', '''		Self::from_bin(Self::into_bin(t))
''', '''		let bin = Self::into_bin(t);
		Self::from_bin(bin)
''')]
R['r5-k-ba-ptr'] = [(K, 'sub', '''				self.0.can_as_ptr()
''', '''				let BuilderArtifact(can) = self;
				can.can_as_ptr()
''')]
R['r5-k-ba-map-fn'] = [(K, 'sub', '''				self.0.downcast_can().map( |bin| {
					Bp::new_binned(bin)
				})
''', '''				self.0.downcast_can().map(Bp::new_binned)
''')]
R['r5-k-box-ref'] = [(K, 'sub', '''		self.downcast_mut()
''', '''		self.downcast_mut::<T>()
''')]
# ---- diagnostics/mod.rs
R['r5-dm-hash'] = [(DM, 'sub', '''		(self.value.can_as_ptr()).hash(state);
''', '''		let ptr = self.value.can_as_ptr();
		ptr.hash(state);
''')]
R['r5-dm-art-eq'] = [(DM, 'sub', '''		(self.value.can_as_ptr())
			.eq(&other.value.can_as_ptr())
''', '''		let own = self.value.can_as_ptr();
		let others = other.value.can_as_ptr();
		own.eq(&others)
''')]
R['r5-dm-noop'] = [(DM, 'sub', '''		Self::default()
''', '''		NoopDoctor
''')]
R['r5-dm-art-order'] = [(DM, 'sub', '''		let dbg_text = format!("{:#?}", value);

		ArtifactHandle {
			value: ArtCan::from_bin(value),
			type_name: std::any::type_name::<T>(),
			dbg_text,
		}
''', '''		let type_name = std::any::type_name::<T>();
		let dbg_text = format!("{:#?}", value);
		let value = ArtCan::from_bin(value);

		ArtifactHandle { value, type_name, dbg_text }
''')]
R['r5-dm-handle-can'] = [(DM, 'sub', '''		BuilderHandle {
			value: value.canned().can,
			id,
''', '''		let CannedAccessor { can } = value.canned();

		BuilderHandle {
			value: can,
			id,
'''), (DM, 'sub', '''use crate::BuilderId;
''', '''use crate::BuilderId;
use crate::blueprint::CannedAccessor;
''')]
R['r5-dm-into-inner'] = [(DM, 'sub', '''		self.value
	}
''', '''		let ArtifactHandle { value, .. } = self;
		value
	}
''')]
# ---- utils.rs
R['r5-u-redeem-match'] = [(U, 'sub', '''		if let Ok(v) = value {
			*resolver.my_state() = Some(v.clone());
''', '''		if let Ok(v) = value {
			let state = resolver.my_state();
			*state = Some(v.clone());
''')]
R['r5-u-redeem-replace'] = [(U, 'sub', '''			*resolver.my_state() = Some(v.clone());
''', '''			resolver.my_state().replace(v.clone());
''')]
R['r5-u-redeem-asref'] = [(U, 'sub', '''			Ok(resolver.my_state().clone().unwrap())
''', '''			Ok(resolver.my_state().as_ref().unwrap().clone())
''')]
R['r5-u-redeem-expect'] = [(U, 'sub', '''			Ok(resolver.my_state().clone().unwrap())
''', '''			let last = resolver.my_state().clone();
			Ok(last.expect("no artifact to redeem with"))
''')]
R['r5-u-redeem-early'] = [(U, 'sub', '''		if let Ok(v) = value {
			*resolver.my_state() = Some(v.clone());
''', '''		if value.is_err() {
			return Ok(resolver.my_state().clone().unwrap());
		}

		if let Ok(v) = value {
			*resolver.my_state() = Some(v.clone());
''')]
R['r5-u-func-paren'] = [(U, 'sub', '''		let f = &self.inner;
		let state = resolver.my_state();

		f(state)

''', '''		(self.inner)(resolver.my_state())
''')]
R['r5-u-func-order'] = [(U, 'sub', '''		let f = &self.inner;
		let state = resolver.my_state();

		f(state)

''', '''		let state = resolver.my_state();
		let f = &self.inner;
		let res = f(state);
		res
''')]
R['r5-u-func-init'] = [(U, 'sub', '''		self.initial_state.clone()
''', '''		let state = &self.initial_state;
		state.clone()
''')]
R['r5-u-const-let'] = [(U, 'sub', '''		Ok(self.inner.clone())
''', '''		let bin = self.inner.clone();
		Ok(bin)
''')]
R['r5-u-const-from-let'] = [(U, 'sub', '''		Blueprint::new(
			ConstBuilder::new(ArtCan::into_bin(t))
		)
''', '''		let bin = ArtCan::into_bin(t);
		let builder = ConstBuilder::new(bin);
		Blueprint::new(builder)
''')]
R['r5-u-conf-let'] = [(U, 'sub', '''		Ok(ArtCan::into_bin(resolver.my_state().clone()))
''', '''		let state: &T = resolver.my_state();
		let artifact = state.clone();

		Ok(ArtCan::into_bin(artifact))
''')]
R['r5-u-conf-from-into'] = [(U, 'sub', '''		Blueprint::new(
			ConfigurableBuilder::new(t)
		)
''', '''		ConfigurableBuilder::new(t).into()
''')]
R['r5-u-cloned-map'] = [(U, 'sub', '''		resolver.resolve_cloned(&self.inner)
			.map(ArtCan::into_bin)
''', '''		resolver.resolve_cloned(&self.inner)
			.map(|artifact| ArtCan::into_bin(artifact))
''')]
R['r5-u-cloned-via-ref'] = [(U, 'sub', '''		resolver.resolve_cloned(&self.inner)
			.map(ArtCan::into_bin)
''', '''		let artifact = resolver.resolve_ref(&self.inner)?.clone();
		Ok(ArtCan::into_bin(artifact))
''')]
R['r5-u-forward-let'] = [(U, 'sub', '''		resolver.resolve(&self.inner)
	}
''', '''		let inner = &self.inner;
		let bin = resolver.resolve(inner)?;
		Ok(bin)
	}
''')]
R['r5-u-feign-match'] = [(U, 'sub', '''		resolver.resolve(&self.inner).map_err(|n| n.into_any())
''', '''		match resolver.resolve(&self.inner) {
			Ok(bin) => Ok(bin),
			Err(n) => n.into_any(),
		}
''')]
R['r5-u-feign-empty'] = [(U, 'sub', '''		resolver.resolve(&self.inner).map_err(|n| n.into_any())
''', '''		resolver.resolve(&self.inner).map_err(|n| match n {})
''')]
R['r5-u-feign-unpack'] = [(U, 'sub', '''		resolver.resolve(&self.inner).map_err(|n| n.into_any())
''', '''		Ok(crate::unpack(resolver.resolve(&self.inner)))
''')]
R['r5-u-redeem-init'] = [(U, 'sub', '''		self.default_value.clone()
''', '''		match &self.default_value {
			Some(v) => Some(v.clone()),
			None => None,
		}
''')]
# ---- textual.rs
R['r5-dt-next-gen'] = [(DT, 'all', '''		self.count.0 += 1;
		self.count.1 = 0;
''', '''		self.count = (self.count.0 + 1, 0);
''')]
R['r5-dt-next-gen-helper'] = [(DT, 'all', '''		self.count.0 += 1;
		self.count.1 = 0;
''', '''		self.next_generation();
'''), (DT, 'sub', '''	/// Dismantles''', '''	fn next_generation(&mut self) {
		self.count.0 += 1;
		self.count.1 = 0;
	}

	/// Dismantles''')]
R['r5-dt-count-destr'] = [(DT, 'all', '''		let count = self.count;
''', '''		let count = (self.count.0, self.count.1);
''')]
R['r5-dt-labels-swapped'] = [(DT, 'sub', '''		let bs = self.builder_str(builder);
		let us = self.builder_str(used);
''', '''		let us = self.builder_str(used);
		let bs = self.builder_str(builder);
''')]
R['r5-dt-artifact-text'] = [(DT, 'sub', '''		if self.opts.show_artifact_values {
			writeln!(self.output(),
				"{}",
				artifact.dbg_text,
			).unwrap();
		} else {
			let s = self.tynm(artifact.type_name);
			writeln!(self.output(),
				"{}",
				s,
			).unwrap();
		}
''', '''		let text = if self.opts.show_artifact_values {
			artifact.dbg_text.clone()
		} else {
			self.tynm(artifact.type_name)
		};
		writeln!(self.output(), "{}", text).unwrap();
''')]
R['r5-dt-addr-opts'] = [(DT, 'sub', '''		if self.opts.show_addresses {
			writeln!(self.output(),
				r#"resolves [{:p}] {} -> [{:p}] {}"#,
				builder.id(),
				bs,
				used.id(),
				us,
			).unwrap();
		} else {
			writeln!(self.output(),
				r#"resolves {} -> {}"#,
				bs,
				us,
			).unwrap();
		}
''', '''		if !self.opts.show_addresses {
			writeln!(self.output(), "resolves {} -> {}", bs, us).unwrap();
			return;
		}

		writeln!(self.output(),
			"resolves [{:p}] {} -> [{:p}] {}",
			builder.id(), bs, used.id(), us,
		).unwrap();
''')]
R['r5-dt-flush-expect'] = [(DT, 'all', '''		self.output().flush().unwrap();
''', '''		self.output().flush().expect("flush failed");
''')]
# ---- visgraph.rs
R['r5-dv-next-gen'] = [(DV, 'all', '''		self.count.0 += 1;
		self.count.1 = 0;
''', '''		self.count = (self.count.0 + 1, 0);
''')]
R['r5-dv-node-helper'] = [(DV, 'sub', '''		let s = self.builder_str(builder);
		writeln!(self.output(),
			r#"  "{:p}" [label = {:?}]"#,
			builder.id(),
			s
		).unwrap();

		let s = self.builder_str(used);
		writeln!(self.output(),
			r#"  "{:p}" [label = {:?}]"#,
			used.id(),
			s
		).unwrap();
''', '''		self.node(builder);
		self.node(used);
'''), (DV, 'sub', '''	fn finish(&mut self) {''', '''	fn node<BCan>(&mut self, handle: &BuilderHandle<BCan>) {
		let s = self.builder_str(handle);
		writeln!(self.output(),
			r#"  "{:p}" [label = {:?}]"#,
			handle.id(),
			s
		).unwrap();
	}

	fn finish(&mut self) {''')]
R['r5-dv-drop-let'] = [(DV, 'sub', '''		if self.output.is_some() {
			self.finish();
		}
''', '''		if self.output.is_none() {
			return;
		}
		self.finish();
''')]
R['r5-dv-inner-let'] = [(DV, 'sub', '''		self.finish();
		self.output.take().unwrap()
''', '''		self.finish();
		let output = self.output.take();
		output.unwrap()
''')]
R['r5-dv-ptr-let'] = [(DV, 'sub', '''		writeln!(self.output(),
			r##"''', '''		let ptr = artifact.value.can_as_ptr() as *const ();
		writeln!(self.output(),
			r##"'''), (DV, 'all', '''			artifact.value.can_as_ptr() as *const ()''', '''			ptr''')]
R['r5-dv-label-let'] = [(DV, 'sub', '''			escape(artifact.type_name),
			escape(&s)
''', '''			type_label,
			value_label
'''), (DV, 'sub', '''		writeln!(self.output(),
			r##"''', '''		let type_label = escape(artifact.type_name);
		let value_label = escape(&s);
		writeln!(self.output(),
			r##"''')]
R['r5-dv-label-empty'] = [(DV, 'sub', '''		let s = if self.opts.show_artifact_values {
			format!(" :\\n{}", artifact.dbg_text)
		} else {
			String::new()
		};
''', '''		let mut s = String::new();
		if self.opts.show_artifact_values {
			s = format!(" :\\n{}", artifact.dbg_text);
		}
''')]
R['r5-k-unsized-tuple'] = [(K, 'sub', """		let rc = builder;

		let rc_dyn: Rc<dyn Builder<ArtCan, Self, Artifact=Artifact, DynState=DynState, Err=Err>> =
			rc.clone();

		let rc_any: Rc<dyn Any> = rc;

		(
			rc_dyn,
			rc_any,
		)
""", """		(builder.clone(), builder)
""")]

# debug assertions in other words
R['r6-dbg-cfg-if'] = [(I, 'sub', '''		debug_assert!(!self.contains_artifact(promise));''', '''		if cfg!(debug_assertions) {
			assert!(!self.contains_artifact(promise));
		}'''),
  (I, 'sub', '''						debug_assert!(found);''', '''						if cfg!(debug_assertions) && !found {
							panic!("dependents and dependencies do not match");
						}''')]
R['r6-dbg-attr'] = [(I, 'sub', '''		debug_assert!(self.is_builder_known_by_id(user.id()),
			"Tracking dependency for unknown builder");''', '''		#[cfg(debug_assertions)]
		{
			assert!(self.is_builder_known_by_id(user.id()),
				"Tracking dependency for unknown builder");
		}'''),
  (I, 'sub', '''						debug_assert!(found);''', '''						#[cfg(debug_assertions)]
						assert!(found);
						#[cfg(not(debug_assertions))]
						let _ = found;''')]
R['r6-dbg-fn'] = [(I, 'sub', '''		debug_assert!(!self.contains_artifact(promise));''', '''		self.check_absent(promise);'''),
  (I, 'sub', '''	/// Deletes the artifact and dynamic state of the given builder.
''', '''	/// Checks that nothing is recorded yet.
	#[inline]
	fn check_absent<AP, B: ?Sized>(&self, promise: &AP)
			where
				B: Builder<ArtCan, BCan>,
				ArtCan: CanSized<B::Artifact>,
				BCan: Can<AP::Builder>,
				AP: Promise<Builder = B, BCan = BCan> {
		debug_assert!(!self.contains_artifact(promise));
	}

	/// Deletes the artifact and dynamic state of the given builder.
''')]
R['r6-dbg-gone'] = [(I, 'sub', '''		debug_assert!(!self.contains_artifact(promise));
''', ''''''), (I, 'sub', '''						debug_assert!(found);
''', '''						let _ = found;
''')]
R['r6-dbg-eq'] = [(I, 'sub', '''						debug_assert!(found);''', '''						debug_assert_eq!(found, true);'''),
  (I, 'sub', '''		debug_assert!(!self.contains_artifact(promise));''', '''		debug_assert_ne!(self.contains_artifact(promise), true, "twice");''')]
# ---- sets and maps handled with retain, any, all, take and replace
R['r7-clear-take'] = [(I, 'sub', '''	pub(crate) fn clear_artifacts(&mut self) {
		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();
''', '''	pub(crate) fn clear_artifacts(&mut self) {
		drop(std::mem::take(&mut self.artifacts));
		self.dependents = HashMap::new();
		let _old = std::mem::replace(&mut self.dependencies, HashMap::new());
''')]
R['r7-clear-retain'] = [(I, 'sub', '''	pub(crate) fn clear_artifacts(&mut self) {
		self.artifacts.clear();
		self.dependents.clear();
''', '''	pub(crate) fn clear_artifacts(&mut self) {
		self.artifacts.retain(|_, _| false);
		self.dependents.retain(|_, _| false);
''')]
R['r7-clearall-retain'] = [(I, 'sub', '''		self.known_builders.clear();
		self.known_leaf_builder.clear();
''', '''		let known = &mut self.known_builders;
		known.clear();
		self.known_leaf_builder.retain(|bid| known.contains_key(bid));
''')]
R['r7-gc-all'] = [(I, 'sub', '''		// Only check the leaf builders
''', '''		if self.known_leaf_builder.iter().all(|bid| BCan::upgrade_from_weak(&self.known_builders[bid]).is_some()) {
			return false;
		}

		// Only check the leaf builders
''')]
R['r7-gc-any'] = [(I, 'sub', '''		let found_any = !unreachable_builder_ids.is_empty();
''', '''		let found_any = unreachable_builder_ids.iter().any(|_| true);
''')]
R['r7-gc-retain'] = [(I, 'sub', '''			self.dyn_states.remove(&bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.remove(&bid);
''', '''			self.dyn_states.retain(|other, _| *other != bid);
			self.known_builders.remove(&bid);
			self.known_leaf_builder.retain(|other| *other != bid);
''')]
R['r7-purge-retain'] = [(I, 'sub', '''		self.known_builders.remove(&bid);
		self.known_leaf_builder.remove(&bid);
''', '''		self.known_builders.retain(|known, _| known != &bid);
		self.known_leaf_builder.retain(|&leaf| leaf != bid);
''')]
R['r7-inv-retain'] = [(I, 'sub', '''			self.artifacts.remove(&bid);

		}
''', '''			self.artifacts.retain(|id, _| *id != bid);

		}
''')]
R['r7-inv-any'] = [(I, 'sub', '''						let is_leaf = self.dependents[&dep].is_empty();
''', '''						let is_leaf = !self.dependents[&dep].iter().any(|_| true);
''')]
R['r7-invdep-any'] = [(I, 'sub', '''		if self.is_builder_known_by_id(*builder) {
			self.known_leaf_builder.insert(*builder);
''', '''		if self.known_builders.keys().any(|known| known == builder) {
			self.known_leaf_builder.insert(*builder);
''')]
R['r7-known-any'] = [(I, 'sub', '''		self.known_builders.contains_key(&bid)
''', '''		self.known_builders.iter().any(|(known, _)| *known == bid)
''')]
R['r7-contains-any'] = [(I, 'sub', '''		self.artifacts.contains_key(&promise.id())
''', '''		let id = promise.id();
		self.artifacts.keys().any(|known| *known == id)
''')]
R['r7-clear-take2'] = [(I, 'sub', '''	pub(crate) fn clear_artifacts(&mut self) {
		self.artifacts.clear();
		self.dependents.clear();
		self.dependencies.clear();
''', '''	pub(crate) fn clear_artifacts(&mut self) {
		let _artifacts = std::mem::take(&mut self.artifacts);
		let _dependents = std::mem::take(&mut self.dependents);
		self.dependencies.clear();
''')]
R['r7-clearall-replace'] = [(I, 'sub', '''		self.known_builders.clear();
		self.known_leaf_builder.clear();
''', '''		let _ = std::mem::replace(&mut self.known_builders, HashMap::new());
		let _leafs = std::mem::take(&mut self.known_leaf_builder);
''')]
R['r7-purge-ref'] = [(I, 'sub', '''		self.known_leaf_builder.remove(&bid);

		// Purge''', '''		self.known_leaf_builder.retain(|leaf| { let gone = *leaf == bid; !gone });

		// Purge''')]
