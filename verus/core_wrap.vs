// generated by tools/gen_wrappers.py

//@ fn Cache::is_builder_known(promise)
//@ requires
[] self.inner.inv()
//@ ensures
[C10] ret == self.inner.known().contains_key(promise.pid())
[C10] ret == (self.inner.arts().contains_key(promise.pid()) || self.inner.dyns().contains_key(promise.pid()))

//@ fn Cache::lookup(promise)
//@ requires
[] self.inner.inv()
//@ ensures
[C01] ret.is_some() == self.inner.arts().contains_key(promise.pid())
[C01] ret matches Some(b) ==> <ArtCan as CanSized<B::Artifact>>::canned(b) == self.inner.arts()[promise.pid()]

//@ fn Cache::lookup_ref(promise)
//@ requires
[] self.inner.inv()
//@ ensures
[C01] ret.is_some() == self.inner.arts().contains_key(promise.pid())
[C01] ret matches Some(v) ==> *v == <ArtCan as CanSized<B::Artifact>>::content(self.inner.arts()[promise.pid()])

//@ fn Cache::lookup_cloned(promise)
//@ requires
[] self.inner.inv()
//@ ensures
[C01] ret.is_some() == self.inner.arts().contains_key(promise.pid())
[C01] ret matches Some(v) ==> cloned(<ArtCan as CanSized<B::Artifact>>::content(self.inner.arts()[promise.pid()]), v)

//@ fn Cache::get_dyn_state(promise)
//@ requires
[] self.inner.inv()
//@ ensures
[C05] ret.is_some() == self.inner.dyns().contains_key(promise.pid())
[C05] ret matches Some(v) ==> *v == self.inner.dyns()[promise.pid()].bval::<B::DynState>()

//@ fn Cache::number_of_known_builders()
//@ requires
[] self.inner.inv()
//@ ensures
[C10] ret as nat == self.inner.known().dom().len()
[C10] ret as nat == self.inner.arts().dom().union(self.inner.dyns().dom()).len()
//@ at entry
assert(self.inner.known().dom() =~= self.inner.arts().dom().union(self.inner.dyns().dom()));

//@ fn Cache::lookup_mut(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C12] ret.is_some() == (old(self).inner.arts().contains_key(promise.pid()) && !below(old(self).inner.dependents@, promise.pid(), promise.pid()))
[C12] ret matches Some(v) ==> *v == <ArtCan as CanSized<B::Artifact>>::content(old(self).inner.arts()[promise.pid()])
  && <ArtCan as CanSized<B::Artifact>>::content(final(self).inner.arts()[promise.pid()]) == *final(v)
  && (*final(v) == *v ==> final(self).inner.arts()[promise.pid()] == old(self).inner.arts()[promise.pid()])
[C12,C01,C02,C03,C04,C05,C10] final(self).inner.dropped_below(&old(self).inner, promise.pid())
[C16] final(self).inner.evs() == old(self).inner.evs()
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()
//@ at entry
proof {
  let (o, id) = (old(self).inner, promise.pid());
  assert forall|q: Id, u: Id| #[trigger] o.fwd(q, u) && below(o.dependents@, id, q) implies below(o.dependents@, id, u) by { hits_step(o.dependents@, o.dependents@[id]@, q, u); }
  assert forall|u: Id| #[trigger] o.fwd(id, u) implies below(o.dependents@, id, u) by { below_edge(o.dependents@, id, u); }
}

//@ fn Cache::get(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C01] old(self).inner.arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).inner.same(&old(self).inner)
[C01] ret matches Ok(b) ==> final(self).inner.arts().contains_key(promise.pid()) && <ArtCan as CanSized<B::Artifact>>::canned(b) == final(self).inner.arts()[promise.pid()]
[C01,C15,C05] (ret matches Ok(b) && !old(self).inner.arts().contains_key(promise.pid())) ==> final(self).inner.built_ok(&old(self).inner, promise.sb(), promise.pid(), final(self).inner.arts()[promise.pid()], final(self).inner.arts()[promise.pid()])
[C06,C01,C05,C15] ret matches Err(e) ==> !old(self).inner.arts().contains_key(promise.pid()) && final(self).inner.built_err(&old(self).inner, promise.sb(), promise.pid(), e)
[C04,C06,C01] final(self).inner.grown(&old(self).inner, None)
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
[C16] !old(self).inner.arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).inner.evs(), final(self).inner.evs(), final(self).inner.arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()

//@ fn Cache::get_ref(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C01] old(self).inner.arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).inner.same(&old(self).inner)
[C01] ret matches Ok(v) ==> final(self).inner.arts().contains_key(promise.pid()) && *v == <ArtCan as CanSized<B::Artifact>>::content(final(self).inner.arts()[promise.pid()])
[C01,C15,C05] (ret matches Ok(b) && !old(self).inner.arts().contains_key(promise.pid())) ==> final(self).inner.built_ok(&old(self).inner, promise.sb(), promise.pid(), final(self).inner.arts()[promise.pid()], final(self).inner.arts()[promise.pid()])
[C06,C01,C05,C15] ret matches Err(e) ==> !old(self).inner.arts().contains_key(promise.pid()) && final(self).inner.built_err(&old(self).inner, promise.sb(), promise.pid(), e)
[C04,C06,C01] final(self).inner.grown(&old(self).inner, None)
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
[C16] !old(self).inner.arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).inner.evs(), final(self).inner.evs(), final(self).inner.arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()

//@ fn Cache::get_mut(promise)
//@ attr #[verifier::spinoff_prover]
//@ requires
[] old(self).inner.inv()
//@ ensures
[C12,C01] old(self).inner.arts().contains_key(promise.pid()) && !below(old(self).inner.dependents@, promise.pid(), promise.pid()) ==> final(self).inner.dropped_below(&old(self).inner, promise.pid())
  && (ret matches Ok(v) && *v == <ArtCan as CanSized<B::Artifact>>::content(old(self).inner.arts()[promise.pid()])
     && (*final(v) == *v ==> final(self).inner.arts()[promise.pid()] == old(self).inner.arts()[promise.pid()]))
[C12,C01] !(old(self).inner.arts().contains_key(promise.pid()) && !below(old(self).inner.dependents@, promise.pid(), promise.pid())) ==>
  exists|l: RawCache<ArtCan, BCan>| #[trigger] l.dropped_below(&old(self).inner, promise.pid()) && final(self).inner.grown(&l, None)
  && (ret matches Err(e) ==> final(self).inner.built_err(&l, promise.sb(), promise.pid(), e))
  && (ret matches Ok(v) ==> exists|c: ArtCan| #[trigger] final(self).inner.built_ok(&l, promise.sb(), promise.pid(), c, final(self).inner.arts()[promise.pid()]) && *v == <ArtCan as CanSized<B::Artifact>>::content(c))
[C12] ret matches Ok(v) ==> final(self).inner.arts().contains_key(promise.pid()) && <ArtCan as CanSized<B::Artifact>>::content(final(self).inner.arts()[promise.pid()]) == *final(v)
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
[C16] ret.is_err() ==> served(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
//@ endif
[C09,C10] final(self).inner.inv()

//@ fn Cache::get_cloned(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C01] old(self).inner.arts().contains_key(promise.pid()) ==> ret.is_ok() && final(self).inner.same(&old(self).inner)
[C01] ret matches Ok(v) ==> final(self).inner.arts().contains_key(promise.pid()) && cloned(<ArtCan as CanSized<B::Artifact>>::content(final(self).inner.arts()[promise.pid()]), v)
[C01,C15,C05] (ret matches Ok(b) && !old(self).inner.arts().contains_key(promise.pid())) ==> final(self).inner.built_ok(&old(self).inner, promise.sb(), promise.pid(), final(self).inner.arts()[promise.pid()], final(self).inner.arts()[promise.pid()])
[C06,C01,C05,C15] ret matches Err(e) ==> !old(self).inner.arts().contains_key(promise.pid()) && final(self).inner.built_err(&old(self).inner, promise.sb(), promise.pid(), e)
[C04,C06,C01] final(self).inner.grown(&old(self).inner, None)
//@ if diagnostics
[C16] served_made(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
[C16] !old(self).inner.arts().contains_key(promise.pid()) && ret.is_ok() ==> served_built(promise.pid(), old(self).inner.evs(), final(self).inner.evs(), final(self).inner.arts()[promise.pid()])
[C16] ret.is_err() ==> served(promise.pid(), old(self).inner.evs(), final(self).inner.evs())
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()

//@ fn Cache::dyn_state(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C10] final(self).inner.knows(&old(self).inner, promise.pid())
[C05,C01] final(self).inner.same_art(&old(self).inner)
[C05,C04] final(self).inner.same_deps(&old(self).inner)
[C05] final(self).inner.dyn_put::<B::DynState>(&old(self).inner, promise.pid(), *ret)
[C05] old(self).inner.dyns().contains_key(promise.pid()) ==> final(self).inner.same_dyn(&old(self).inner)
[C05] !old(self).inner.dyns().contains_key(promise.pid()) ==> promise.sb().inits(*ret)
[C16] final(self).inner.evs() == old(self).inner.evs()
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()

//@ fn Cache::dyn_state_mut(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C02,C05] forall|x: Id| #[trigger] final(self).inner.arts().contains_key(x) ==> !old(self).inner.cone(promise.pid(), x)
[C03,C05] forall|x: Id| #![trigger old(self).inner.arts().contains_key(x)] #![trigger final(self).inner.arts().contains_key(x)] old(self).inner.arts().contains_key(x) && !old(self).inner.cone(promise.pid(), x) ==> final(self).inner.arts().contains_key(x) && final(self).inner.arts()[x] == old(self).inner.arts()[x]
[C01] forall|x: Id| #[trigger] final(self).inner.arts().contains_key(x) ==> old(self).inner.arts().contains_key(x) && final(self).inner.arts()[x] == old(self).inner.arts()[x]
[C03,C04] forall|a: Id, b: Id| #[trigger] final(self).inner.fwd(a, b) <==> old(self).inner.fwd(a, b) && !old(self).inner.cone(promise.pid(), b)
[C10,C03] final(self).inner.knows(&old(self).inner, promise.pid())
[C05,C03] final(self).inner.dyn_put::<B::DynState>(&old(self).inner, promise.pid(), *final(ret))
[C05] old(self).inner.dyns().contains_key(promise.pid()) ==> *ret == old(self).inner.dyns()[promise.pid()].bval::<B::DynState>()
[C05] !old(self).inner.dyns().contains_key(promise.pid()) ==> promise.sb().inits(*ret)
//@ if diagnostics
[C16] final(self).inner.evs() == old(self).inner.evs().push(Ev::Invalidate(promise.pid()))
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()
//@ at entry
proof {
  let (o, id) = (old(self).inner, promise.pid());
  assert forall|q: Id, u: Id| #[trigger] o.fwd(q, u) && o.cone(id, q) implies o.cone(id, u) by { reach_step(o.dependents@, id, q, u); }
}

//@ fn Cache::clear_artifacts()
//@ requires
[] old(self).inner.inv()
//@ ensures
[C11] final(self).inner.arts() =~= Map::empty()
[C11,C05] final(self).inner.dyns() =~= old(self).inner.dyns()
[C11,C10] final(self).inner.known() =~= old(self).inner.known()
[C11] forall|a: Id, b: Id| !#[trigger] final(self).inner.fwd(a, b) && !final(self).inner.rev(a, b)
[C11,C09] final(self).inner.dependents@ =~= Map::empty() && final(self).inner.dependencies@ =~= Map::empty()
[C16] final(self).inner.evs() == old(self).inner.evs()
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()

//@ fn Cache::clear_all()
//@ requires
[] old(self).inner.inv()
//@ ensures
[C11] final(self).inner.arts() =~= Map::empty() && final(self).inner.dyns() =~= Map::empty()
[C11,C10] final(self).inner.known() =~= Map::empty()
[C11] forall|a: Id, b: Id| !#[trigger] final(self).inner.fwd(a, b) && !#[trigger] final(self).inner.rev(a, b)
//@ if diagnostics
[C16] final(self).inner.evs() == old(self).inner.evs().push(Ev::Clear)
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()

//@ fn Cache::purge(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C02,C11] forall|x: Id| #[trigger] final(self).inner.arts().contains_key(x) ==> !old(self).inner.cone(promise.pid(), x)
[C03,C11] forall|x: Id| #![trigger old(self).inner.arts().contains_key(x)] #![trigger final(self).inner.arts().contains_key(x)] old(self).inner.arts().contains_key(x) && !old(self).inner.cone(promise.pid(), x) ==> final(self).inner.arts().contains_key(x) && final(self).inner.arts()[x] == old(self).inner.arts()[x]
[C01] forall|x: Id| #[trigger] final(self).inner.arts().contains_key(x) ==> old(self).inner.arts().contains_key(x) && final(self).inner.arts()[x] == old(self).inner.arts()[x]
[C11,C03,C05] final(self).inner.dyns() =~= old(self).inner.dyns().remove(promise.pid())
[C11,C10,C03] final(self).inner.known() =~= old(self).inner.known().remove(promise.pid())
[C11,C03,C04] forall|a: Id, b: Id| #[trigger] final(self).inner.fwd(a, b) <==> old(self).inner.fwd(a, b) && !old(self).inner.cone(promise.pid(), b)
//@ if diagnostics
[C16] final(self).inner.evs() == old(self).inner.evs().push(Ev::Invalidate(promise.pid()))
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()
//@ at entry
proof {
  let (o, id) = (old(self).inner, promise.pid());
  assert forall|q: Id, u: Id| #[trigger] o.fwd(q, u) && o.cone(id, q) implies o.cone(id, u) by { reach_step(o.dependents@, id, q, u); }
}

//@ fn Cache::invalidate(promise)
//@ requires
[] old(self).inner.inv()
//@ ensures
[C02] forall|x: Id| #[trigger] final(self).inner.arts().contains_key(x) ==> !old(self).inner.cone(promise.pid(), x)
[C03] forall|x: Id| #![trigger old(self).inner.arts().contains_key(x)] #![trigger final(self).inner.arts().contains_key(x)] old(self).inner.arts().contains_key(x) && !old(self).inner.cone(promise.pid(), x) ==> final(self).inner.arts().contains_key(x) && final(self).inner.arts()[x] == old(self).inner.arts()[x]
[C01] forall|x: Id| #[trigger] final(self).inner.arts().contains_key(x) ==> old(self).inner.arts().contains_key(x) && final(self).inner.arts()[x] == old(self).inner.arts()[x]
[C03,C05] final(self).inner.dyns() =~= old(self).inner.dyns()
[C03,C10] final(self).inner.known() =~= old(self).inner.known()
[C03,C04] forall|a: Id, b: Id| #[trigger] final(self).inner.fwd(a, b) <==> old(self).inner.fwd(a, b) && !old(self).inner.cone(promise.pid(), b)
//@ if diagnostics
[C16] final(self).inner.evs() == old(self).inner.evs().push(Ev::Invalidate(promise.pid()))
//@ endif
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C09,C10] final(self).inner.inv()
//@ at entry
proof {
  let (o, id) = (old(self).inner, promise.pid());
  assert forall|q: Id, u: Id| #[trigger] o.fwd(q, u) && o.cone(id, q) implies o.cone(id, u) by { reach_step(o.dependents@, id, q, u); }
}

//@ fn Cache::garbage_collection()
//@ requires
[] old(self).inner.inv()
//@ ensures
[C07] final(self).inner.collected(&old(self).inner)
[C16] final(self).inner.evs() == old(self).inner.evs()
[C04] final(self).inner.fresh_kept(&old(self).inner)
[C08] forall|x: Id| #[trigger] final(self).inner.known().contains_key(x) && final(self).inner.dead(x) ==> final(self).inner.wanted(x)
[C09,C10] final(self).inner.inv()
//@ at exit
proof {
  let n = self.inner;
  assert forall|x: Id| #[trigger] n.known().contains_key(x) && n.dead(x) implies n.wanted(x) by { wanted_all(n, x); }
}

//@ fn CacheOwned::new()
//@ ensures
[C09,C10] ret.inner.inv()
[C10,C11] ret.inner.known().dom() == Set::<Id>::empty()

//@ fn CacheOwned as Default::default()
//@ ensures
[C09,C10] ret.inner.inv()
[C10,C11] ret.inner.known().dom() == Set::<Id>::empty()
