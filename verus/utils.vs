//@ raw
/// The uninhabited type of crate never.
#[verifier::external_body]
pub struct Never { n: std::convert::Infallible }
/// TRUSTED: a value of an uninhabited type does not exist.
#[verifier::external_body]
pub proof fn never(n: Never)
    ensures false,
{ }
impl Never {
    #[verifier::external_body] // TRUSTED: matching on a value that does not exist
    pub fn v_absurd(self) -> !
        ensures false,
    { unimplemented!() }
    #[verifier::external_body] // TRUSTED: never::Never::into_any
    pub fn into_any<T>(self) -> (r: T)
        ensures false,
    { unimplemented!() }
}

// ---------------------------------------------------------------- dynamic states
impl<ArtCan, BCan: CanStrong> RawCache<ArtCan, BCan> {
    /// Nothing but the dynamic state of `u`, which is of type D.
    pub open spec fn state<D>(&self, u: Id) -> D { self.dyns()[u].bval::<D>() }
    pub open spec fn state_set<D>(&self, o: &Self, u: Id, v: D) -> bool {
        self.dyn_put::<D>(o, u, v) && self.same_art(o) && self.same_known(o) && self.same_deps(o)
    }
}
/// A clone of the value, if there is one.
pub open spec fn cloned_opt<V: Clone>(o: Option<V>, d: Option<V>) -> bool {
    (o is Some == d is Some) && (o matches Some(v) ==> cloned(v, d->0))
}
/// The closure can lead from state `a` to `b`, returning `r`.
pub uninterp spec fn ran<F, S, R>(f: F, a: S, b: S, r: R) -> bool;
#[verifier::external_body] // TRUSTED: definition
pub proof fn ran_def<F: for<'r> Fn(&'r mut S) -> R, S, R>(f: F)
    ensures forall|s: &mut S, r: R| #[trigger] call_ensures(f, (s,), r) ==> ran(f, *s, *final(s), r),
{ }

// ---------------------------------------------------------------- the utility builders
//@ extra impl RedeemingBuilder as Builder
[] open spec fn inits(&self, d: Option<ArtCan::Bin>) -> bool { cloned_opt(self.default_value, d) }
[] /// Passes on what its inner builder yields, keeping a clone of it; yields a clone of what it kept if the inner builder fails.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, Never>) -> bool {
   exists|m: RawCache<ArtCan, BCan>, e: Option<B::Err>| #[trigger] m.asked(&o, u, self.inner.pid(), self.inner.sb(), e)
     && (r matches Ok(b)
       && (e is None ==> <ArtCan as CanSized<T>>::canned(b) == m.arts()[self.inner.pid()] && (n.state::<Option<ArtCan::Bin>>(u) matches Some(v) && cloned(b, v) && n.state_set(&m, u, Some(v))))
       && (e is Some ==> (m.state::<Option<ArtCan::Bin>>(u) matches Some(v) && cloned(v, b) && n.state_set(&m, u, Some(v)))))
 }
//@ fn RedeemingBuilder as Builder::build(resolver)
//@ maypanic
[C15] exists|m: RawCache<ArtCan, BCan>, e: B::Err| #[trigger] m.asked(old(resolver).cache, resolver.uid(), self.inner.pid(), self.inner.sb(), Some(e)) && resolver.cache.state_set(&m, resolver.uid(), None::<ArtCan::Bin>)
//@ at entry
proof { assert forall|n: RawCache<ArtCan, BCan>| #[trigger] n.grown(resolver.cache, Some(resolver.uid())) implies n.grown(resolver.cache, None) by { grown_trans(*resolver.cache, *resolver.cache, n, resolver.uid()); } }


//@ extra impl FunctionalBuilder as Builder
[] open spec fn inits(&self, d: S) -> bool { cloned(self.initial_state, d) }
[] /// Yields what its closure returns on its own state.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, E>) -> bool {
   ran(self.inner, o.state::<S>(u), n.state::<S>(u), r) && n.state_set(&o, u, n.state::<S>(u))
 }
//@ fn FunctionalBuilder as Builder::build(resolver)
//@ at entry
// TRUSTED: the closure of a user has no precondition
proof { assume(forall|s: &mut S| call_requires(self.inner, (s,))); ran_def::<F, S, Result<ArtCan::Bin, E>>(self.inner); }

//@ extra impl ConstBuilder as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Yields a clone of its value.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtBin, Never>) -> bool {
   n == o && (r matches Ok(b) && cloned(self.inner, b))
 }
//@ fn ConstBuilder as Builder::build(_resolver)

//@ extra impl ConfigurableBuilder as Builder
[] open spec fn inits(&self, d: T) -> bool { cloned(self.initial, d) }
[] /// Yields a clone of its state.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, Never>) -> bool {
   n.state_set(&o, u, o.state::<T>(u)) && (r matches Ok(b) && cloned(o.state::<T>(u), <ArtCan as CanSized<T>>::bin_val(b)))
 }
//@ fn ConfigurableBuilder as Builder::build(resolver)

//@ extra impl ClonedBuilder as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Yields a clone of the inner artifact, or the error of the inner builder.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, B::Err>) -> bool {
   n.asked(&o, u, self.inner.pid(), self.inner.sb(), err_of(r))
   && (r matches Ok(b) ==> cloned(<ArtCan as CanSized<B::Artifact>>::content(n.arts()[self.inner.pid()]), <ArtCan as CanSized<B::Artifact>>::bin_val(b)))
 }
//@ fn ClonedBuilder as Builder::build(resolver)

//@ extra impl ForwardingBuilder as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Yields the inner artifact, or the error of the inner builder.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, B::Err>) -> bool {
   n.asked(&o, u, self.inner.pid(), self.inner.sb(), err_of(r))
   && (r matches Ok(b) ==> <ArtCan as CanSized<B::Artifact>>::canned(b) == n.arts()[self.inner.pid()])
 }
//@ fn ForwardingBuilder as Builder::build(resolver)

//@ extra impl FeigningBuilder as Builder
[] open spec fn inits(&self, d: ()) -> bool { true }
[] /// Yields the inner artifact.
 open spec fn built(&self, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, Err>) -> bool {
   n.asked(&o, u, self.inner.pid(), self.inner.sb(), None)
   && (r matches Ok(b) && <ArtCan as CanSized<B::Artifact>>::canned(b) == n.arts()[self.inner.pid()])
 }
//@ fn FeigningBuilder as Builder::build(resolver)

// ---------------------------------------------------------------- results that cannot fail
//@ extra trait Unpacking
[] spec fn unpacked(self) -> Self::Inner;
//@ fn Unpacking::unpack()
//@ ensures
[C15] ret == self.unpacked()
//@ extra impl Result as Unpacking
[] open spec fn unpacked(self) -> T { self->Ok_0 }
//@ fn Result as Unpacking::unpack()
//@ fn unpack(res)
//@ ensures
[C15] res == Ok::<T, Never>(ret)

//@ raw
// ---------------------------------------------------------------- the history of a redeeming builder
/// What a redeeming builder with default `d` keeps after its inner builder yielded `log` (`None`: failed).
pub open spec fn kept_of<V>(d: Option<V>, log: Seq<Option<V>>) -> Option<V>
    decreases log.len(),
{
    if log.len() == 0 { d } else if log.last() is Some { log.last() } else { kept_of(d, log.drop_last()) }
}
/// One build: `got` is what the inner builder yielded, `s` and `t` are the kept artifact before and after, `y` is what was yielded.
pub open spec fn redeem<V>(got: Option<V>, s: Option<V>, t: Option<V>, y: V) -> bool {
    match got { Some(v) => t == Some(v) && y == v, None => t == s && s == Some(y) }
}
/// The contract of the redeeming builder amounts to such a step, if clones of bins share the artifact.
pub proof fn redeem_step<ArtCan, AP, B: ?Sized, BCan, ArtBin, T>(b: RedeemingBuilder<AP, ArtBin>, o: RawCache<ArtCan, BCan>, n: RawCache<ArtCan, BCan>, u: Id, r: Result<ArtCan::Bin, Never>)
    where B: Builder<ArtCan, BCan, Artifact=T>, BCan: Can<B>, AP: Promise<Builder=B, BCan=BCan>, ArtCan: Clone + CanSized<T, Bin=ArtBin>, ArtBin: Clone + 'static, BCan: Clone + CanStrong, T: 'static
    requires b.built(o, n, u, r), <ArtCan as CanBase>::shares(),
    ensures exists|m: RawCache<ArtCan, BCan>, e: Option<B::Err>| #[trigger] m.asked(&o, u, b.inner.pid(), b.inner.sb(), e)
        && redeem::<ArtBin>(if e is None { Some(r->Ok_0) } else { None }, m.state(u), n.state(u), r->Ok_0)
        && (e is None ==> <ArtCan as CanSized<T>>::canned(r->Ok_0) == m.arts()[b.inner.pid()]),
{
    <ArtCan as Can<T>>::bin_clone();
    let (m, e) = choose|m: RawCache<ArtCan, BCan>, e: Option<B::Err>| #[trigger] m.asked(&o, u, b.inner.pid(), b.inner.sb(), e)
     && (r matches Ok(x)
       && (e is None ==> <ArtCan as CanSized<T>>::canned(x) == m.arts()[b.inner.pid()] && (n.state::<Option<ArtCan::Bin>>(u) matches Some(v) && cloned(x, v) && n.state_set(&m, u, Some(v))))
       && (e is Some ==> (m.state::<Option<ArtCan::Bin>>(u) matches Some(v) && cloned(v, x) && n.state_set(&m, u, Some(v)))));
    assert(m.asked(&o, u, b.inner.pid(), b.inner.sb(), e));
}
/// Over any history it keeps the most recently passed-on artifact, or else the default, and yields that whenever its inner builder fails.
pub proof fn redeem_history<V>(d: Option<V>, log: Seq<Option<V>>, st: Seq<Option<V>>, out: Seq<V>)
    requires
        st.len() == log.len() + 1, out.len() == log.len(), st[0] == d,
        forall|i: int| 0 <= i < log.len() ==> #[trigger] redeem(log[i], st[i], st[i + 1], out[i]),
    ensures
        forall|i: int| 0 <= i <= log.len() ==> #[trigger] st[i] == kept_of(d, log.take(i)),
        forall|i: int| 0 <= i < log.len() && log[i] is None ==> Some(#[trigger] out[i]) == kept_of(d, log.take(i)),
    decreases log.len(),
{
    if log.len() > 0 {
        let k = log.len() - 1;
        redeem_history(d, log.drop_last(), st.drop_last(), out.drop_last());
        assert(log.drop_last().take(k) =~= log.drop_last());
        assert(st[k] == st.drop_last()[k]);
        assert(redeem(log[k], st[k], st[k + 1], out[k]));
        assert(log.take(k + 1) =~= log);
        assert(log.take(k) =~= log.drop_last());
        assert forall|i: int| 0 <= i <= log.len() implies #[trigger] st[i] == kept_of(d, log.take(i)) by {
            if i < log.len() { assert(st[i] == st.drop_last()[i]); assert(log.drop_last().take(i) =~= log.take(i)); }
        }
        assert forall|i: int| 0 <= i < log.len() && log[i] is None implies Some(#[trigger] out[i]) == kept_of(d, log.take(i)) by {
            assert(redeem(log[i], st[i], st[i + 1], out[i]));
        }
    }
}
